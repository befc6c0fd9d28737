// The few functions of libstdc++ that its headers call but that live in the shared library, where accesses to the
// memory of the code under test would go unseen. The list primitives are defined here, instrumented like the headers;
// the tree and hash-policy functions are the library's own, announced to the simulator as accesses (see rt.cpp).
#include <list>

namespace std::__detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    bool const ex = x._M_next == &x, ey = y._M_next == &y;
    _List_node_base *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev;
    if (ey) {
        x._M_next = x._M_prev = &x;
    } else {
        x._M_next = yn;
        x._M_prev = yp;
        yn->_M_prev = yp->_M_next = &x;
    }
    if (ex) {
        y._M_next = y._M_prev = &y;
    } else {
        y._M_next = xn;
        y._M_prev = xp;
        xn->_M_prev = xp->_M_next = &y;
    }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this == last) return;
    last->_M_prev->_M_next  = this;
    first->_M_prev->_M_next = last;
    _M_prev->_M_next        = first;
    _List_node_base* const p = _M_prev;
    _M_prev                 = last->_M_prev;
    last->_M_prev           = first->_M_prev;
    first->_M_prev          = p;
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base* n = this;
    do {
        _List_node_base* next = n->_M_next;
        n->_M_next            = n->_M_prev;
        n->_M_prev            = next;
        n                     = next;
    } while (n != this);
}
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept
{
    _M_next               = pos;
    _M_prev               = pos->_M_prev;
    pos->_M_prev->_M_next = this;
    pos->_M_prev          = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _List_node_base* const n = _M_next;
    _List_node_base* const p = _M_prev;
    p->_M_next               = n;
    n->_M_prev               = p;
}
}    // namespace std::__detail
