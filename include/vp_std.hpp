// Bodies for the out-of-line parts of libstdc++'s ordered containers, for the verifier only (natively libstdc++.so is
// used).  They implement the documented contract of the functions (an ordered binary tree) without rebalancing.
#pragma once
#ifndef VP_NATIVE
#include <map>
#include <string>

namespace std
{
    inline _Rb_tree_node_base* vp_inc(_Rb_tree_node_base* x)
    {
        if (x->_M_right)
        {
            x = x->_M_right;
            while (x->_M_left)
            {
                x = x->_M_left;
            }
            return x;
        }
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right)
        {
            x = y;
            y = y->_M_parent;
        }
        return x->_M_right != y ? y : x;
    }

    inline _Rb_tree_node_base* vp_dec(_Rb_tree_node_base* x)
    {
        if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x)
        {
            return x->_M_right; // header
        }
        if (x->_M_left)
        {
            _Rb_tree_node_base* y = x->_M_left;
            while (y->_M_right)
            {
                y = y->_M_right;
            }
            return y;
        }
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left)
        {
            x = y;
            y = y->_M_parent;
        }
        return y;
    }

    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
    {
        return vp_inc(x);
    }

    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
    {
        return vp_inc(const_cast<_Rb_tree_node_base*>(x));
    }

    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
    {
        return vp_dec(x);
    }

    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
    {
        return vp_dec(const_cast<_Rb_tree_node_base*>(x));
    }

    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
    {
        x->_M_parent = p;
        x->_M_left   = nullptr;
        x->_M_right  = nullptr;
        x->_M_color  = _S_black; // the header stays the only red node
        if (left)
        {
            p->_M_left = x;
            if (p == &h)
            {
                h._M_parent = x;
                h._M_right  = x;
            }
            else if (p == h._M_left)
            {
                h._M_left = x;
            }
        }
        else
        {
            p->_M_right = x;
            if (p == h._M_right)
            {
                h._M_right = x;
            }
        }
    }
}

// the out-of-line parts of std::string, likewise: long strings (the names of timers and fields)
struct vp_string_rep
{
    char* p;
    std::size_t n;
    union
    {
        char local[16];
        std::size_t cap;
    };
};

char* vp_string_create(vp_string_rep*, std::size_t* cap, std::size_t old) asm("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm");

char* vp_string_create(vp_string_rep*, std::size_t* cap, std::size_t old)
{
    if (*cap > old && *cap < 2 * old)
    {
        *cap = 2 * old;
    }
    return static_cast<char*>(::operator new(*cap + 1));
}

void vp_string_assign(vp_string_rep* s, const vp_string_rep* o) asm("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_");

void vp_string_assign(vp_string_rep* s, const vp_string_rep* o)
{
    if (s == o)
    {
        return;
    }
    std::size_t cap = s->p == s->local ? 15 : s->cap, n = o->n;
    if (n > cap)
    {
        std::size_t want = n;
        char* q          = vp_string_create(s, &want, cap);
        if (s->p != s->local)
        {
            ::operator delete(s->p);
        }
        s->p   = q;
        s->cap = want;
    }
    for (std::size_t i = 0; i < n; ++i)
    {
        s->p[i] = o->p[i];
    }
    s->p[n] = 0;
    s->n    = n;
}
// replace n1 characters at pos by n2 of t
vp_string_rep& vp_string_replace(vp_string_rep* s, std::size_t pos, std::size_t n1, const char* t, std::size_t n2) asm(
    "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm");

vp_string_rep& vp_string_replace(vp_string_rep* s, std::size_t pos, std::size_t n1, const char* t, std::size_t n2)
{
    std::size_t want = s->n - n1 + n2;
    char* q          = static_cast<char*>(::operator new(want + 16));
    for (std::size_t i = 0; i < want; ++i)
    {
        q[i] = i < pos ? s->p[i] : i < pos + n2 ? t[i - pos] : s->p[i - n2 + n1];
    }
    q[want] = 0;
    if (s->p != s->local)
    {
        ::operator delete(s->p);
    }
    s->p   = q;
    s->n   = want;
    s->cap = want + 15;
    return *s;
}

vp_string_rep& vp_string_append(vp_string_rep* s, const char* t, std::size_t n) asm("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm");

vp_string_rep& vp_string_append(vp_string_rep* s, const char* t, std::size_t n)
{
    return vp_string_replace(s, s->n, 0, t, n);
}
#endif
