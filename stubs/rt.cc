// C++ runtime pieces of libstdc++ that only exist as compiled code: explicit instantiations of
// std::string and the red-black tree / list helpers (same observable behaviour: an ordered tree;
// it is not rebalanced).  Linked into every encoded module.
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <list>
#include <map>
namespace std {
template class basic_string<char>;

static _Rb_tree_node_base* inc(_Rb_tree_node_base* x)
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x)
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }

void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    h._M_color = _S_red;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    auto replace = [&] (_Rb_tree_node_base* o, _Rb_tree_node_base* n)
    {
        if (h._M_parent == o) h._M_parent = n;
        else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
        else o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent;
    };
    _Rb_tree_node_base* nx = z == h._M_right ? 0 : inc(z);
    _Rb_tree_node_base* pv = z == h._M_left ? 0 : dec(z);
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else
    {
        _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y);
        y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (z == h._M_left) h._M_left = nx ? nx : &h;
    if (z == h._M_right) h._M_right = pv ? pv : &h;
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{ _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
{
    if (this != l)
    {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
        _List_node_base* const t = this->_M_prev;
        this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
}
}
