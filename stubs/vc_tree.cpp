// Out-of-line part of the tree of std::map/std::set (it is in the compiled standard library): the same operations on the same
// nodes without the rebalancing, which does not change what is in the tree or in which order.  Trusted.
#include <bits/stl_tree.h>
namespace std _GLIBCXX_VISIBILITY(default)
{
using B = _Rb_tree_node_base;
static B* Next(B* x) throw()
{
    if (x->_M_right != nullptr)
    {
        x = x->_M_right;
        while (x->_M_left != nullptr) { x = x->_M_left; }
        return x;
    }
    B* y = x->_M_parent;
    while (x == y->_M_right)
    {
        x = y;
        y = y->_M_parent;
    }
    return x->_M_right != y ? y : x;
}
static B* Prev(B* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) { return x->_M_right; }
    if (x->_M_left != nullptr)
    {
        B* y = x->_M_left;
        while (y->_M_right != nullptr) { y = y->_M_right; }
        return y;
    }
    B* y = x->_M_parent;
    while (x == y->_M_left)
    {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
B* _Rb_tree_increment(B* x) throw() { return Next(x); }
const B* _Rb_tree_increment(const B* x) throw() { return Next(const_cast<B*>(x)); }
B* _Rb_tree_decrement(B* x) throw() { return Prev(x); }
const B* _Rb_tree_decrement(const B* x) throw() { return Prev(const_cast<B*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, B* x, B* p, B& header) throw()
{
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &header)
        {
            header._M_parent = x;
            header._M_right = x;
        }
        else if (p == header._M_left)
        {
            header._M_left = x;
        }
    }
    else
    {
        p->_M_right = x;
        if (p == header._M_right) { header._M_right = x; }
    }
}
B* _Rb_tree_rebalance_for_erase(B* const z, B& header) throw()
{
    B* x = nullptr;
    if (z->_M_left == nullptr || z->_M_right == nullptr)
    {
        x = z->_M_left == nullptr ? z->_M_right : z->_M_left;
        if (x != nullptr) { x->_M_parent = z->_M_parent; }
        if (header._M_parent == z) { header._M_parent = x; }
        else if (z->_M_parent->_M_left == z) { z->_M_parent->_M_left = x; }
        else { z->_M_parent->_M_right = x; }
        if (header._M_left == z)
        {
            B* m = x;
            while (m != nullptr && m->_M_left != nullptr) { m = m->_M_left; }
            header._M_left = m == nullptr ? z->_M_parent : m;
        }
        if (header._M_right == z)
        {
            B* m = x;
            while (m != nullptr && m->_M_right != nullptr) { m = m->_M_right; }
            header._M_right = m == nullptr ? z->_M_parent : m;
        }
        return z;
    }
    // two children: the successor takes the place
    B* y = z->_M_right;
    while (y->_M_left != nullptr) { y = y->_M_left; }
    if (y != z->_M_right)
    {
        y->_M_parent->_M_left = y->_M_right;
        if (y->_M_right != nullptr) { y->_M_right->_M_parent = y->_M_parent; }
        y->_M_right = z->_M_right;
        z->_M_right->_M_parent = y;
    }
    y->_M_left = z->_M_left;
    z->_M_left->_M_parent = y;
    if (header._M_parent == z) { header._M_parent = y; }
    else if (z->_M_parent->_M_left == z) { z->_M_parent->_M_left = y; }
    else { z->_M_parent->_M_right = y; }
    y->_M_parent = z->_M_parent;
    y->_M_color = z->_M_color;
    return z;
}
}
