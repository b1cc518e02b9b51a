    // ------------------------------------------------------------------ execution (included in Engine)
    void jump(State& s, BasicBlock* to)
    {
        Frame& f = top(s);
        // leaving cut loops
        if (!f.cut.empty())
        {
            for (auto it = f.cut.begin(); it != f.cut.end();)
            {
                if (!it->first->contains(to))
                {
                    it = f.cut.erase(it);
                    if (!s.cuts.empty())
                    {
                        s.cuts.pop_back();
                    }
                }
                else
                {
                    ++it;
                }
            }
        }
        BasicBlock* from = f.bb;
        visited.insert(to);
        std::vector<std::pair<const PHINode*, Val>> vals;
        auto it = to->begin();
        for (; isa<PHINode>(it); ++it)
        {
            auto* ph = cast<PHINode>(it);
            vals.push_back({ph, opV(s, ph->getIncomingValueForBlock(from))});
        }
        for (auto& p : vals)
        {
            setV(s, p.first, p.second);
        }
        Frame& g = top(s);
        g.prev   = from;
        g.bb     = to;
        g.pc     = it;
    }

    void branch(State& s, const Val& c, BasicBlock* t, BasicBlock* e)
    {
        if (c.k != Val::INT)
        {
            oblige(s, "no-uninitialised-read", kB(false), "branch on an uninitialised value");
            throw PathEnd{"undef branch"};
        }
        if (!c.sym)
        {
            jump(s, (c.c & 1) ? t : e);
            return;
        }
        int r = decide(s, c.e);
        if (r == 2)
        {
            StateP o = std::move(pushed);
            jump(*o, e);
            work.push_back(std::move(o));
            r = 1;
        }
        jump(s, r ? t : e);
    }

    void pushFrame(State& s, Function* fn, const std::vector<Val>& args, CallBase* cb)
    {
        if (s.stack.size() > 400)
        {
            throw Unsupported{"recursion too deep in " + demangle(fn->getName().str())};
        }
        visited.insert(&fn->getEntryBlock());
        auto f    = std::make_shared<Frame>();
        f->f      = fn;
        f->caller = cb;
        FnInfo& in = info(fn);
        f->regs.resize(in.n);
        unsigned i = 0;
        for (auto& a : fn->args())
        {
            if (i < args.size())
            {
                f->regs[in.idx[&a]] = args[i];
                // byval copies
                if (a.hasByValAttr())
                {
                    uint64_t sz = DL.getTypeAllocSize(a.getParamByValType());
                    uint32_t id = alloc(s, sz, "byval", false, true);
                    Val p       = vI((int64_t)s.mem[id - 1]->base, 64);
                    memCopy(s, p, args[i], sz);
                    f->allocas.push_back(id);
                    f->regs[in.idx[&a]] = p;
                }
            }
            ++i;
        }
        f->bb = &fn->getEntryBlock();
        f->pc = f->bb->begin();
        s.stack.push_back(f);
    }

    void doReturn(State& s, const Val* rv)
    {
        Frame& f = top(s);
        while (!f.cut.empty())
        {
            f.cut.erase(f.cut.begin());
            if (!s.cuts.empty())
            {
                s.cuts.pop_back();
            }
        }
        for (auto id : f.allocas)
        {
            auto o   = std::make_shared<Obj>();
            o->base  = s.mem[id - 1]->base;
            o->size  = s.mem[id - 1]->size;
            o->freed = true;
            o->name  = s.mem[id - 1]->name;
            s.mem[id - 1] = o;
        }
        CallBase* cb = f.caller;
        s.stack.pop_back();
        if (s.stack.empty() || !cb)
        {
            return;
        }
        finishCall(s, cb, rv);
    }

    void finishCall(State& s, CallBase* cb, const Val* rv)
    {
        if (!cb->getType()->isVoidTy())
        {
            setV(s, cb, rv ? *rv : vUndef());
        }
        if (auto* iv = dyn_cast<InvokeInst>(cb))
        {
            jump(s, iv->getNormalDest());
        }
        else
        {
            ++top(s).pc;
        }
    }

    std::string cstr(State& s, const Val& p)
    {
        std::string r;
        if (p.k != Val::INT || p.sym || p.c == 0)
        {
            return r;
        }
        uint64_t a  = (uint64_t)p.c;
        uint32_t id = findObj(s, a);
        if (!id)
        {
            return r;
        }
        Obj& o = *s.mem[id - 1];
        for (uint64_t i = a - o.base; i < o.size && o.b[i]; ++i)
        {
            r += (char)o.b[i];
        }
        return r;
    }

    Z3_ast fresh(const std::string& n, Z3_sort so)
    {
        return R(Z3_mk_const(Z, Z3_mk_string_symbol(Z, (n + "!" + std::to_string(nfresh++)).c_str()), so));
    }

    Val freshInt(const std::string& n, unsigned w)
    {
        if (w == 1)
        {
            return vBool(fresh(n, sBool));
        }
        Z3_ast e = fresh(n, sInt);
        return mkS(e, w, imin(w), imax(w));
    }

    // evaluate a pure boolean function fn(ctx, k) on the current state: formula over k
    Z3_ast evalPure(State& s, Function* fn, const std::vector<Val>& args)
    {
        if (pure)
        {
            throw Unsupported{"nested pure evaluation"};
        }
        std::vector<StateP> saved;
        saved.swap(work);
        std::vector<PureRes> res;
        auto c          = std::make_unique<State>(s);
        size_t basePc   = s.pc.size();
        size_t depth    = c->stack.size();
        pushFrame(*c, fn, args, nullptr);
        pure      = &res;
        pureDepth = depth;
        work.push_back(std::move(c));
        std::string err;
        while (!work.empty() && err.empty())
        {
            StateP t = std::move(work.back());
            work.pop_back();
            try
            {
                while (t->stack.size() > depth)
                {
                    stepOne(*t);
                }
                PureRes r;
                r.pc.assign(t->pc.begin() + basePc, t->pc.end());
                r.v = pureRet;
                res.push_back(r);
            }
            catch (PathEnd& e)
            {
            }
            catch (Unsupported& e)
            {
                err = e.why;
            }
        }
        pure = nullptr;
        work.swap(saved);
        if (!err.empty())
        {
            throw Unsupported{"in pure function: " + err};
        }
        std::vector<Z3_ast> dis;
        for (auto& r : res)
        {
            Z3_ast c2 = eB(r.v.w == 1 ? r.v : truncV(r.v, 1));
            for (auto x : r.pc)
            {
                c2 = zand(x, c2);
            }
            dis.push_back(c2);
        }
        if (dis.empty())
        {
            return kB(false);
        }
        return simp(R(Z3_mk_or(Z, dis.size(), dis.data())));
    }

    Val pureRet;

    Z3_ast forallPure(State& s, Function* fn, const Val& ctx)
    {
        Z3_ast k  = fresh("k", sInt);
        Val kv    = mkS(k, 64, imin(64), imax(64));
        Z3_ast ph = evalPure(s, fn, {ctx, kv});
        Z3_app bound[1] = {Z3_to_app(Z, k)};
        return R(Z3_mk_forall_const(Z, 0, 1, bound, 0, nullptr, ph));
    }

    void killPath(const char* why)
    {
        throw PathEnd{why};
    }

    Loop* loopOf(State& s)
    {
        Frame& f = top(s);
        Loop* L  = loops(f.f).getLoopFor(f.bb);
        return L;
    }

    std::vector<std::pair<uint64_t, uint64_t>> pendAssigns;

    void havocRange(State& s, uint64_t a, uint64_t n)
    {
        Loc l  = resolve(s, a, 1, "havoc");
        Obj& q = *s.mem[l.id - 1];
        if (q.kind == Obj::ARRAY)
        {
            Obj& o = wr(s, l.id);
            for (auto& f : o.fields)
            {
                f.arr = fresh("havoc_arr", Z3_mk_array_sort(Z, sInt, f.real ? sReal : sInt));
            }
            return;
        }
        Obj& o = wr(s, l.id);
        // keep the layout of the cells currently stored
        uint64_t p = l.off, end = l.off + n;
        while (p < end)
        {
            if (o.st[p] == 2)
            {
                auto c = o.cells.upper_bound((unsigned)p);
                --c;
                unsigned c0 = c->first, cs = c->second.size;
                Val v = c->second.v;
                if (v.k == Val::FLT)
                {
                    o.cells[c0].v = vF(fresh("havoc", sReal));
                }
                else
                {
                    Val nv        = freshInt("havoc", 8 * cs);
                    nv.prov       = v.prov;
                    o.cells[c0].v = nv;
                }
                p = c0 + cs;
            }
            else if (o.st[p] == 1)
            {
                throw Unsupported{"havoc of concrete bytes: use vp_havoc_* typed"};
            }
            else
            {
                ++p;
            }
        }
    }

    bool vpIntrinsic(State& s, CallBase* cb, const std::string& n, const std::vector<Val>& a)
    {
        auto ret = [&](const Val& v)
        {
            finishCall(s, cb, &v);
        };
        auto retv = [&]()
        {
            finishCall(s, cb, nullptr);
        };
        if (n == "vp_any_i64")
        {
            std::string nm = cstr(s, a[0]);
            int64_t lo = a[1].c, hi = a[2].c;
            if (a[1].sym || a[2].sym)
            {
                throw Unsupported{"vp_any bounds symbolic"};
            }
            if (lo == hi)
            {
                s.anys.push_back({nm, vI(lo, 64)});
                ret(vI(lo, 64));
                return true;
            }
            Z3_ast e = fresh(nm, sInt);
            s.pc.push_back(zand(zle(kI(lo), e), zle(e, kI(hi))));
            s.model = nullptr;
            std::shared_ptr<ModelH> m;
            int r = check(s, kB(true), &m);
            if (r == 1)
            {
                s.model = m;
            }
            Val v = mkS(e, 64, lo, hi);
            s.anys.push_back({nm, v});
            ret(v);
            return true;
        }
        if (n == "vp_any_f64")
        {
            std::string nm = cstr(s, a[0]);
            Val v          = vF(fresh(nm, sReal));
            s.anys.push_back({nm, v});
            ret(v);
            return true;
        }
        if (n == "vp_concretise")
        {
            int64_t x = concretise(s, a[0]);
            ret(vI(x, 64));
            return true;
        }
        if (n == "vp_assume")
        {
            if (!assume(s, eB(a[0])))
            {
                killPath("assume");
            }
            retv();
            return true;
        }
        if (n == "vp_assert")
        {
            std::string l = cstr(s, a[1]);
            if (a[0].k != Val::INT)
            {
                oblige(s, l, kB(false), "asserted value is uninitialised");
                killPath("assert undef");
            }
            if (!oblige(s, l, eB(a[0])))
            {
                killPath("assert");
            }
            retv();
            return true;
        }
        if (n == "vp_cover")
        {
            covers[cstr(s, a[0])]++;
            retv();
            return true;
        }
        if (n == "vp_note")
        {
            s.notes.push_back({cstr(s, a[0]), a[1]});
            retv();
            return true;
        }
        if (n == "vp_symbolic")
        {
            ret(vI(1, 32));
            return true;
        }
        if (n == "vp_throw_ok")
        {
            s.expectThrow = a[0].c != 0;
            retv();
            return true;
        }
        if (n == "vp_field_new")
        {
            CellField f;
            f.name           = cstr(s, a[0]);
            f.real           = a[1].c != 0;
            Z3_sort dom[4]   = {sInt, sInt, sInt, sInt};
            Z3_sort as       = Z3_mk_array_sort_n(Z, 4, dom, f.real ? sReal : sInt);
            Z3_inc_ref(Z, Z3_sort_to_ast(Z, as));
            f.arr = f.arr0 = fresh("F_" + f.name, as);
            s.cf.push_back(f);
            ret(vI((int64_t)s.cf.size() - 1, 32));
            return true;
        }
        if (n == "vp_cell")
        {
            CellKey k;
            k.field = (unsigned)concretise(s, a[0]);
            for (int i = 0; i < 4; ++i)
            {
                k.k[i] = simp(eI(a[i + 1]));
            }
            for (auto& q : s.ck)
            {
                if (q.field == k.field && q.k[0] == k.k[0] && q.k[1] == k.k[1] && q.k[2] == k.k[2] && q.k[3] == k.k[3])
                {
                    ret(vI((int64_t)s.mem[q.obj - 1]->base, 64));
                    return true;
                }
            }
            uint32_t id   = alloc(s, 8, "cell of " + s.cf[k.field].name);
            k.obj         = id;
            Obj& o        = wr(s, id);
            o.kind        = Obj::CELLS;
            o.es          = (unsigned)s.ck.size();
            s.ck.push_back(k);
            ret(vI((int64_t)o.base, 64));
            return true;
        }
        if (n == "vp_array_new")
        {
            // (name, elem size, len, nfields, const int64_t* desc)
            uint32_t id = alloc(s, 16, "array " + cstr(s, a[0]));
            s.nextAddr += (uint64_t)1 << 40;
            Obj& o  = wr(s, id);
            o.kind  = Obj::ARRAY;
            o.es    = (unsigned)a[1].c;
            o.size  = (uint64_t)1 << 39;
            o.cells[0] = {a[2], 8};
            for (int64_t i = 0; i < a[3].c; ++i)
            {
                ArrField f;
                Type* i64 = Type::getInt64Ty(M.getContext());
                f.off     = (unsigned)loadV(s, addPtr(a[4], 24 * i), i64).c;
                f.size    = (unsigned)loadV(s, addPtr(a[4], 24 * i + 8), i64).c;
                f.real    = loadV(s, addPtr(a[4], 24 * i + 16), i64).c != 0;
                f.arr     = fresh(cstr(s, a[0]) + "_f" + std::to_string(f.off), Z3_mk_array_sort(Z, sInt, f.real ? sReal : sInt));
                o.fields.push_back(f);
            }
            Val v  = vI((int64_t)o.base, 64);
            v.prov = id;
            ret(v);
            return true;
        }
        if (n == "vp_array_setlen")
        {
            uint32_t id = a[0].sym ? a[0].prov : findObj(s, (uint64_t)a[0].c);
            Obj& o      = wr(s, id);
            o.cells[0]  = {a[1], 8};
            retv();
            return true;
        }
        if (n == "vp_array_len")
        {
            uint32_t id = a[0].sym ? a[0].prov : findObj(s, (uint64_t)a[0].c);
            ret(s.mem[id - 1]->cells[0].v);
            return true;
        }
        if (n == "vp_assert_forall" || n == "vp_assume_forall" || n == "vp_inv_forall")
        {
            Function* fn = faddr.at((uint64_t)a[0].c);
            bool as      = n == "vp_assert_forall";
            std::string label = n == "vp_assume_forall" ? "" : cstr(s, a[2]);
            if (n == "vp_inv_forall")
            {
                Loop* L = loopOf(s);
                int ph  = L ? top(s).cut[L] : 0;
                as      = ph != 1;
                label += ph == 0 ? " (holds initially)" : " (preserved)";
            }
            if (as)
            {
                Z3_ast k  = fresh("sk", sInt);
                Val kv    = mkS(k, 64, imin(64), imax(64));
                s.pc.push_back(zand(zle(kI(imin(64)), k), zle(k, kI(imax(64)))));
                Z3_ast ph = evalPure(s, fn, {a[1], kv});
                oblige(s, label, ph);
            }
            else
            {
                Z3_ast q = forallPure(s, fn, a[1]);
                s.pc.push_back(q);
                s.model = nullptr;
                std::shared_ptr<ModelH> m;
                int r = check(s, kB(true), &m);
                if (r == 0)
                {
                    killPath("assume_forall");
                }
                if (r == 1)
                {
                    s.model = m;
                }
            }
            retv();
            return true;
        }
        if (n == "vp_inv")
        {
            Loop* L = loopOf(s);
            int ph  = L ? top(s).cut[L] : 0;
            std::string id = cstr(s, a[0]);
            if (ph == 1)
            {
                if (!assume(s, eB(a[1])))
                {
                    killPath("inv assume");
                }
            }
            else
            {
                if (!oblige(s, id + (ph == 0 ? " (holds initially)" : " (preserved)"), eB(a[1])))
                {
                    killPath("inv");
                }
            }
            retv();
            return true;
        }
        if (n == "vp_assigns")
        {
            // remembered until the cut
            uint64_t ad = (uint64_t)a[0].c;
            if (a[0].sym || a[1].sym)
            {
                throw Unsupported{"symbolic assigns"};
            }
            pendAssigns.push_back({ad, (uint64_t)a[1].c});
            retv();
            return true;
        }
        if (n == "vp_inv_cut")
        {
            Loop* L = loopOf(s);
            if (!L)
            {
                throw Unsupported{"invariant is not inside a loop"};
            }
            int ph = top(s).cut[L];
            auto as = pendAssigns;
            pendAssigns.clear();
            if (ph == 0)
            {
                // havoc
                CutFrame cf;
                cf.depth   = s.stack.size();
                cf.assigns = as;
                cf.nobj    = (uint32_t)s.mem.size();
                for (auto& r : as)
                {
                    havocTyped(s, r.first, r.second);
                }
                BasicBlock* H = L->getHeader();
                std::vector<std::pair<const PHINode*, Val>> vals;
                auto it = H->begin();
                for (; isa<PHINode>(it); ++it)
                {
                    auto* phn = cast<PHINode>(it);
                    Val cur   = opV(s, phn);
                    Type* t   = phn->getType();
                    Val v;
                    if (t->isPointerTy())
                    {
                        uint32_t id = cur.sym ? cur.prov : findObj(s, (uint64_t)cur.c);
                        Z3_ast e    = fresh("havoc_ptr", sInt);
                        if (id && s.mem[id - 1]->kind == Obj::ARRAY)
                        {
                            Obj& o = *s.mem[id - 1];
                            v      = mkS(zadd(kI((i128)o.base), zmul(kI(o.es), e)), 64, imin(64), imax(64));
                            v.prov = id;
                        }
                        else
                        {
                            throw Unsupported{"havoc of a pointer into a non-array object"};
                        }
                    }
                    else if (t->isIntegerTy())
                    {
                        unsigned w = t->getIntegerBitWidth();
                        v          = freshInt("havoc_" + phn->getName().str(), w);
                        if (v.sym && w > 1)
                        {
                            s.pc.push_back(zand(zle(kI(imin(w)), v.e), zle(v.e, kI(imax(w)))));
                        }
                        v.prov = cur.prov;
                    }
                    else if (t->isDoubleTy())
                    {
                        v = vF(fresh("havoc", sReal));
                    }
                    else
                    {
                        throw Unsupported{"havoc phi type"};
                    }
                    vals.push_back({phn, v});
                }
                for (auto& p : vals)
                {
                    setV(s, p.first, p.second);
                }
                s.model = nullptr;
                std::shared_ptr<ModelH> m;
                if (check(s, kB(true), &m) == 1)
                {
                    s.model = m;
                }
                Frame& f  = top(s);
                f.cut[L]  = 1;
                f.bb      = H;
                f.pc      = it;
                s.cuts.push_back(cf);
                return true;
            }
            if (ph == 1)
            {
                top(s).cut[L] = 2;
                retv();
                return true;
            }
            ++cutpaths;
            throw PathEnd{"cut"};
        }
        return false;
    }

    // havoc memory bytes: every scalar currently stored becomes arbitrary (concrete bytes as 4- or 8-byte cells)
    void havocTyped(State& s, uint64_t a, uint64_t n)
    {
        Loc l  = resolve(s, a, 1, "havoc");
        if (s.mem[l.id - 1]->kind == Obj::ARRAY)
        {
            havocRange(s, a, n);
            return;
        }
        Obj& o     = wr(s, l.id);
        uint64_t p = l.off, end = l.off + n;
        if (n == 8 || n == 4 || n == 1)
        {
            bool flt = false;
            uint32_t prov = 0;
            auto c   = o.cells.find((unsigned)p);
            if (c != o.cells.end() && c->second.v.k == Val::FLT)
            {
                flt = true;
            }
            if (c != o.cells.end())
            {
                prov = c->second.v.prov;
            }
            clearRange(o, p, n);
            Val v = flt ? vF(fresh("havoc", sReal)) : freshInt("havoc_mem", 8 * n);
            if (!flt)
            {
                s.pc.push_back(zand(zle(kI(imin(8 * n)), v.e), zle(v.e, kI(imax(8 * n)))));
                v.prov = prov;
            }
            putVal(o, p, v, n);
            return;
        }
        (void)end;
        throw Unsupported{"assigns of size other than 1,4,8: list the scalars"};
    }

    bool external(State& s, CallBase* cb, Function* fn, const std::vector<Val>& a)
    {
        std::string n = fn->getName().str();
        auto ret      = [&](const Val& v)
        {
            finishCall(s, cb, &v);
        };
        auto retv = [&]()
        {
            finishCall(s, cb, nullptr);
        };
        auto die = [&](const char* label, const std::string& d)
        {
            if (s.expectThrow)
            {
                covers["throws"]++;
                ++paths;
                throw PathEnd{"expected throw"};
            }
            oblige(s, label, kB(false), d);
            throw PathEnd{"die"};
        };
        if (n.rfind("vp_", 0) == 0)
        {
            if (vpIntrinsic(s, cb, n, a))
            {
                return true;
            }
            throw Unsupported{"intrinsic " + n};
        }
        if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t"
            || n == "aligned_alloc" || n == "_ZnamRKSt9nothrow_t")
        {
            Val sz = n == "aligned_alloc" ? a[1] : a[0];
            int64_t k   = concretise(s, sz);
            if (k < 0 || k > (1ll << 32))
            {
                die("no-exception", "allocation of absurd size");
            }
            uint32_t id = alloc(s, (uint64_t)k, "heap", true);
            Val p       = vI((int64_t)s.mem[id - 1]->base, 64);
            ret(p);
            return true;
        }
        if (n == "calloc")
        {
            uint64_t k  = (uint64_t)(concretise(s, a[0]) * concretise(s, a[1]));
            uint32_t id = alloc(s, k, "heap", true);
            std::fill(s.mem[id - 1]->st.begin(), s.mem[id - 1]->st.end(), 1);
            ret(vI((int64_t)s.mem[id - 1]->base, 64));
            return true;
        }
        if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "free" || n == "_ZdlPvmSt11align_val_t")
        {
            uint64_t p = (uint64_t)concretise(s, a[0]);
            if (p)
            {
                uint32_t id = findObj(s, p);
                if (!id || s.mem[id - 1]->base != p || s.mem[id - 1]->freed || !s.mem[id - 1]->heap)
                {
                    if (!(id && s.mem[id - 1]->kind == Obj::ARRAY))
                    {
                        oblige(s, "memory-safety", kB(false), "invalid free");
                        throw PathEnd{"free"};
                    }
                }
                else
                {
                    auto o        = std::make_shared<Obj>();
                    o->base       = s.mem[id - 1]->base;
                    o->size       = s.mem[id - 1]->size;
                    o->freed      = true;
                    o->name       = "heap";
                    s.mem[id - 1] = o;
                }
            }
            retv();
            return true;
        }
        if (n == "__cxa_throw" || n == "__cxa_rethrow" || n.rfind("_ZSt17__throw_bad", 0) == 0 || n.rfind("_ZSt20__throw", 0) == 0
            || n.rfind("_ZSt24__throw", 0) == 0 || n.rfind("_ZSt19__throw", 0) == 0 || n.rfind("_ZSt16__throw", 0) == 0
            || n.find("__throw_") != std::string::npos)
        {
            die("no-exception", "exception " + demangle(n));
        }
        if (n == "__cxa_allocate_exception")
        {
            uint32_t id = alloc(s, (uint64_t)a[0].c, "exception", true);
            ret(vI((int64_t)s.mem[id - 1]->base, 64));
            return true;
        }
        if (n == "__cxa_free_exception" || n == "__cxa_begin_catch" || n == "__cxa_end_catch" || n == "__cxa_call_unexpected")
        {
            if (cb->getType()->isVoidTy())
            {
                retv();
            }
            else
            {
                ret(vUndef(8));
            }
            return true;
        }
        if (n == "__assert_fail" || n == "abort" || n == "exit" || n == "_exit" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual"
            || n == "quick_exit")
        {
            std::string d = n;
            if (n == "__assert_fail")
            {
                d += " " + cstr(s, a[0]);
            }
            die("no-abort", d);
        }
        if (n == "__cxa_guard_acquire")
        {
            // 1 if not initialised
            Val g = loadV(s, a[0], Type::getInt8Ty(M.getContext()));
            ret(vI(g.k == Val::INT && g.c ? 0 : 1, 32));
            return true;
        }
        if (n == "__cxa_guard_release")
        {
            storeV(s, a[0], vI(1, 8), Type::getInt8Ty(M.getContext()));
            retv();
            return true;
        }
        if (n == "__cxa_guard_abort")
        {
            retv();
            return true;
        }
        if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit")
        {
            ret(vI(0, 32));
            return true;
        }
        if (n == "strlen")
        {
            ret(vI((int64_t)cstr(s, a[0]).size(), 64));
            return true;
        }
        if (n == "memcmp" || n == "bcmp")
        {
            int64_t k  = concretise(s, a[2]);
            Type* i8   = Type::getInt8Ty(M.getContext());
            int64_t r  = 0;
            Type* i64 = Type::getInt64Ty(M.getContext());
            (void)i64;
            bool symb = false;
            Z3_ast eq = kB(true);
            for (int64_t i = 0; i < k; ++i)
            {
                Val x = loadV(s, addPtr(a[0], i), i8), y = loadV(s, addPtr(a[1], i), i8);
                if (x.k != Val::INT || y.k != Val::INT)
                {
                    throw Unsupported{"memcmp on undefined"};
                }
                if (x.sym || y.sym)
                {
                    symb = true;
                }
                if (!symb && !r)
                {
                    r = (int64_t)uval(x) - (int64_t)uval(y);
                }
                eq = zand(eq, zeq(eI(x), eI(y)));
            }
            if (symb)
            {
                if (n != "bcmp" && !onlyEqZero(cb))
                {
                    throw Unsupported{"symbolic memcmp order"};
                }
                ret(mkS(zite(simp(eq), kI(0), kI(1)), 32, 0, 1));
                return true;
            }
            ret(vI(r, 32));
            return true;
        }
        if (n == "memchr")
        {
            int64_t k = concretise(s, a[2]);
            Type* i8  = Type::getInt8Ty(M.getContext());
            for (int64_t i = 0; i < k; ++i)
            {
                Val x = loadV(s, addPtr(a[0], i), i8);
                if (uval(x) == (uval(a[1]) & 0xff))
                {
                    ret(addPtr(a[0], i));
                    return true;
                }
            }
            ret(vI(0, 64));
            return true;
        }
        if (n == "memcpy" || n == "memmove")
        {
            memCopy(s, a[0], a[1], (uint64_t)concretise(s, a[2]));
            ret(a[0]);
            return true;
        }
        if (n == "memset")
        {
            doMemset(s, a[0], a[1], (uint64_t)concretise(s, a[2]));
            ret(a[0]);
            return true;
        }
        if (mathFn(s, cb, n, a))
        {
            return true;
        }
        // streams and printing: no observable effect on the state we reason about
        std::string d = demangle(n);
        if (d.find("basic_ostringstream") != std::string::npos || d.find("basic_stringstream") != std::string::npos)
        {
            if (d.find("::str() const") != std::string::npos)
            {
                // the text is not modelled: an empty string
                Type* i64 = Type::getInt64Ty(M.getContext());
                Val buf   = addPtr(a[0], 16);
                storeV(s, a[0], buf, i64);
                storeV(s, addPtr(a[0], 8), vI(0, 64), i64);
                storeV(s, buf, vI(0, 8), Type::getInt8Ty(M.getContext()));
            }
            if (cb->getType()->isVoidTy())
            {
                retv();
            }
            else
            {
                ret(a.empty() ? vI(0, 64) : a[0]);
            }
            return true;
        }
        if (d.find("std::ostream") != std::string::npos || d.find("basic_ostream") != std::string::npos || n == "puts" || n == "putchar"
            || n == "printf" || n == "fprintf" || n == "fflush" || n == "fputc" || n == "fwrite" || n == "fputs"
            || d.find("std::ios_base") != std::string::npos || d.find("fmt::") != std::string::npos
            || d.find("std::chrono") != std::string::npos || n == "clock_gettime")
        {
            if (cb->getType()->isVoidTy())
            {
                retv();
            }
            else if (cb->getType()->isPointerTy() && !a.empty())
            {
                ret(a[0]);
            }
            else if (cb->getType()->isIntegerTy())
            {
                ret(vI(0, cb->getType()->getIntegerBitWidth()));
            }
            else
            {
                ret(undefAgg(cb->getType()));
            }
            return true;
        }
        throw Unsupported{"external function " + d.substr(0, 200)};
    }

    static bool onlyEqZero(CallBase* cb)
    {
        for (auto* u : cb->users())
        {
            auto* c = dyn_cast<ICmpInst>(u);
            if (!c || !c->isEquality())
            {
                return false;
            }
        }
        return true;
    }

    void doMemset(State& s, const Val& p, const Val& v, uint64_t n)
    {
        if (n == 0)
        {
            return;
        }
        uint64_t a = (uint64_t)concretise(s, p);
        Loc l      = resolve(s, a, n, "write");
        if (!s.cuts.empty())
        {
            frameCheckStore(s, l.id, a, n);
        }
        Obj& o = wr(s, l.id);
        if (v.k != Val::INT || v.sym)
        {
            if (v.k == Val::UNDEF)
            {
                clearRange(o, l.off, n);
                std::fill(o.st.begin() + l.off, o.st.begin() + l.off + n, 0);
                return;
            }
            throw Unsupported{"symbolic memset"};
        }
        clearRange(o, l.off, n);
        std::fill(o.b.begin() + l.off, o.b.begin() + l.off + n, (uint8_t)v.c);
        std::fill(o.st.begin() + l.off, o.st.begin() + l.off + n, 1);
    }

    Z3_ast floorZ(Z3_ast x)
    {
        return R(Z3_mk_real2int(Z, x));
    }

    bool mathFn(State& s, CallBase* cb, const std::string& n0, const std::vector<Val>& a)
    {
        std::string n = n0;
        auto ret      = [&](const Val& v)
        {
            finishCall(s, cb, &v);
        };
        static const std::map<std::string, double (*)(double)> f1 = {
            {"sqrt", std::sqrt}, {"exp", std::exp},   {"log", std::log},     {"sin", std::sin},     {"cos", std::cos},
            {"tan", std::tan},   {"tanh", std::tanh}, {"log2", std::log2},   {"exp2", std::exp2},   {"atan", std::atan},
            {"acos", std::acos}, {"asin", std::asin}, {"log10", std::log10}, {"cbrt", std::cbrt},
        };
        if (n == "fabs" || n == "floor" || n == "ceil" || n == "trunc" || n == "round" || n == "rint" || n == "nearbyint")
        {
            const Val& x = a[0];
            if (x.k != Val::FLT)
            {
                ret(vUndef(8));
                return true;
            }
            if (!x.sym)
            {
                double r = n == "fabs" ? std::fabs(x.d) : n == "floor" ? std::floor(x.d) : n == "ceil" ? std::ceil(x.d) : n == "trunc" ? std::trunc(x.d)
                         : n == "round" ? std::round(x.d) : std::nearbyint(x.d);
                ret(vD(r));
                return true;
            }
            Z3_ast e = x.e, r;
            auto r2  = [&](Z3_ast i)
            {
                return R(Z3_mk_int2real(Z, i));
            };
            if (n == "fabs")
            {
                r = zite(zle(kD(0), e), e, zsub(kD(0), e));
            }
            else if (n == "floor")
            {
                r = r2(floorZ(e));
            }
            else if (n == "ceil")
            {
                r = zsub(kD(0), r2(floorZ(zsub(kD(0), e))));
            }
            else if (n == "trunc")
            {
                r = zite(zle(kD(0), e), r2(floorZ(e)), zsub(kD(0), r2(floorZ(zsub(kD(0), e)))));
            }
            else if (n == "round")
            {
                r = zite(zle(kD(0), e), r2(floorZ(zadd(e, kD(0.5)))), zsub(kD(0), r2(floorZ(zadd(zsub(kD(0), e), kD(0.5))))));
            }
            else
            {
                // nearest, ties to even
                Z3_ast fl = floorZ(zadd(e, kD(0.5)));
                Z3_ast tie = zand(zeq(r2(fl), zadd(e, kD(0.5))), zeq(zmod(fl, kI(2)), kI(1)));
                r = r2(zite(tie, zsub(fl, kI(1)), fl));
            }
            ret(normF(r));
            return true;
        }
        auto it = f1.find(n);
        if (it != f1.end())
        {
            if (a[0].k == Val::FLT && !a[0].sym)
            {
                ret(vD(it->second(a[0].d)));
                return true;
            }
            // uninterpreted function (congruence only)
            Z3_func_decl fd = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, ("uf_" + n).c_str()), 1, &sReal, sReal);
            Z3_inc_ref(Z, Z3_func_decl_to_ast(Z, fd));
            Z3_ast x = eF(a[0]);
            Z3_ast y = R(Z3_mk_app(Z, fd, 1, &x));
            if (n == "sqrt")
            {
                s.pc.push_back(R(Z3_mk_implies(Z, zle(kD(0), x), zand(zle(kD(0), y), zeq(zmul(y, y), x)))));
            }
            ret(vF(y));
            return true;
        }
        if (n == "pow")
        {
            if (!a[0].sym && !a[1].sym)
            {
                ret(vD(std::pow(a[0].d, a[1].d)));
                return true;
            }
            if (!a[1].sym && a[1].d == std::floor(a[1].d) && std::fabs(a[1].d) <= 12)
            {
                int k    = (int)a[1].d;
                Z3_ast r = kD(1);
                for (int i = 0; i < std::abs(k); ++i)
                {
                    r = zmul(r, a[0].e);
                }
                if (k < 0)
                {
                    r = zdiv(kD(1), r);
                }
                ret(normF(r));
                return true;
            }
            throw Unsupported{"symbolic pow"};
        }
        if (n == "powi")
        {
            int k = (int)concretise(s, a[1]);
            if (!a[0].sym)
            {
                ret(vD(std::pow(a[0].d, k)));
                return true;
            }
            Z3_ast r = kD(1);
            for (int i = 0; i < std::abs(k); ++i)
            {
                r = zmul(r, a[0].e);
            }
            if (k < 0)
            {
                r = zdiv(kD(1), r);
            }
            ret(normF(r));
            return true;
        }
        if (n == "ldexp")
        {
            int k = (int)concretise(s, a[1]);
            if (!a[0].sym)
            {
                ret(vD(std::ldexp(a[0].d, k)));
                return true;
            }
            ret(normF(zmul(a[0].e, kD(std::ldexp(1.0, k)))));
            return true;
        }
        if (n == "fmax" || n == "fmin" || n == "maxnum" || n == "minnum" || n == "maximum" || n == "minimum")
        {
            bool mx = n.find("max") != std::string::npos;
            if (!a[0].sym && !a[1].sym)
            {
                ret(vD(mx ? std::fmax(a[0].d, a[1].d) : std::fmin(a[0].d, a[1].d)));
                return true;
            }
            Z3_ast x = eF(a[0]), y = eF(a[1]);
            ret(normF(mx ? zite(zle(y, x), x, y) : zite(zle(x, y), x, y)));
            return true;
        }
        if (n == "atan2" || n == "hypot" || n == "fmod")
        {
            if (!a[0].sym && !a[1].sym)
            {
                ret(vD(n == "atan2" ? std::atan2(a[0].d, a[1].d) : n == "hypot" ? std::hypot(a[0].d, a[1].d) : std::fmod(a[0].d, a[1].d)));
                return true;
            }
            throw Unsupported{"symbolic " + n};
        }
        if (n == "fma" || n == "fmuladd")
        {
            Val m = binF(s, Instruction::FMul, a[0], a[1]);
            ret(binF(s, Instruction::FAdd, m, a[2]));
            return true;
        }
        if (n == "copysign")
        {
            if (!a[0].sym && !a[1].sym)
            {
                ret(vD(std::copysign(a[0].d, a[1].d)));
                return true;
            }
            Z3_ast x = eF(a[0]), y = eF(a[1]);
            Z3_ast ax = zite(zle(kD(0), x), x, zsub(kD(0), x));
            ret(normF(zite(zle(kD(0), y), ax, zsub(kD(0), ax))));
            return true;
        }
        return false;
    }

    Val minmax(State& s, const Val& a, const Val& b, bool uns, bool mx, unsigned w)
    {
        CmpInst::Predicate p = uns ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT;
        Val c                = icmpV(s, p, a, b, w);
        if (c.k != Val::INT)
        {
            return vUndef(w / 8);
        }
        if (!c.sym)
        {
            bool lt = c.c & 1;
            return lt != mx ? a : b;
        }
        Z3_ast x = eI(a), y = eI(b);
        i128 lo, hi;
        if (uns)
        {
            lo = std::min(a.lo, b.lo);
            hi = std::max(a.hi, b.hi);
        }
        else if (mx)
        {
            lo = std::max(a.lo, b.lo);
            hi = std::max(a.hi, b.hi);
        }
        else
        {
            lo = std::min(a.lo, b.lo);
            hi = std::min(a.hi, b.hi);
        }
        return mkS(mx ? zite(c.e, y, x) : zite(c.e, x, y), w, lo, hi);
    }

    bool intrinsic(State& s, CallBase* cb, IntrinsicInst* ii, const std::vector<Val>& a)
    {
        auto ret = [&](const Val& v)
        {
            finishCall(s, cb, &v);
        };
        auto retv = [&]()
        {
            finishCall(s, cb, nullptr);
        };
        unsigned w = ii->getType()->isIntegerTy() ? ii->getType()->getIntegerBitWidth() : 0;
        switch (ii->getIntrinsicID())
        {
            case Intrinsic::lifetime_start:
            case Intrinsic::lifetime_end:
            case Intrinsic::dbg_declare:
            case Intrinsic::dbg_value:
            case Intrinsic::dbg_label:
            case Intrinsic::assume:
            case Intrinsic::donothing:
            case Intrinsic::experimental_noalias_scope_decl:
            case Intrinsic::stackrestore:
            case Intrinsic::invariant_end:
            case Intrinsic::prefetch:
            case Intrinsic::var_annotation:
                retv();
                return true;
            case Intrinsic::invariant_start:
                ret(vI(0, 64));
                return true;
            case Intrinsic::stacksave:
                ret(vI(0, 64));
                return true;
            case Intrinsic::memcpy:
            case Intrinsic::memcpy_inline:
            case Intrinsic::memmove:
                memCopy(s, a[0], a[1], (uint64_t)concretise(s, a[2]));
                retv();
                return true;
            case Intrinsic::memset:
                doMemset(s, a[0], a[1], (uint64_t)concretise(s, a[2]));
                retv();
                return true;
            case Intrinsic::expect:
            case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group:
            case Intrinsic::ssa_copy:
            case Intrinsic::annotation:
            case Intrinsic::ptr_annotation:
            case Intrinsic::threadlocal_address:
                ret(a[0]);
                return true;
            case Intrinsic::is_constant:
                ret(vI(0, 1));
                return true;
            case Intrinsic::objectsize:
                ret(vI(-1, w));
                return true;
            case Intrinsic::umin:
                ret(minmax(s, a[0], a[1], true, false, w));
                return true;
            case Intrinsic::umax:
                ret(minmax(s, a[0], a[1], true, true, w));
                return true;
            case Intrinsic::smin:
                ret(minmax(s, a[0], a[1], false, false, w));
                return true;
            case Intrinsic::smax:
                ret(minmax(s, a[0], a[1], false, true, w));
                return true;
            case Intrinsic::abs:
            {
                if (!a[0].sym)
                {
                    ret(vI(a[0].c < 0 ? -a[0].c : a[0].c, w));
                    return true;
                }
                i128 m = std::max(a[0].lo < 0 ? -a[0].lo : a[0].lo, a[0].hi < 0 ? -a[0].hi : a[0].hi);
                ret(mkS(zite(zle(kI(0), a[0].e), a[0].e, zsub(kI(0), a[0].e)), w, 0, m));
                return true;
            }
            case Intrinsic::uadd_with_overflow:
            case Intrinsic::sadd_with_overflow:
            case Intrinsic::usub_with_overflow:
            case Intrinsic::ssub_with_overflow:
            case Intrinsic::umul_with_overflow:
            case Intrinsic::smul_with_overflow:
            {
                unsigned id = ii->getIntrinsicID();
                bool uns = id == Intrinsic::uadd_with_overflow || id == Intrinsic::usub_with_overflow || id == Intrinsic::umul_with_overflow;
                int op   = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow)   ? 0
                         : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? 1
                                                                                                        : 2;
                unsigned ww = cb->getArgOperand(0)->getType()->getIntegerBitWidth();
                Val r;
                r.k   = Val::AGG;
                r.agg = std::make_shared<std::vector<Val>>();
                if (!a[0].sym && !a[1].sym)
                {
                    i128 x = uns ? (i128)uval(a[0]) : (i128)a[0].c, y = uns ? (i128)uval(a[1]) : (i128)a[1].c;
                    bool ov;
                    i128 z = 0;
                    if (op == 2 && uns && ww == 64)
                    {
                        u128 zz = (u128)uval(a[0]) * (u128)uval(a[1]);
                        ov      = zz > (u128)~0ull;
                        z       = (i128)zz;
                    }
                    else
                    {
                        z  = op == 0 ? x + y : op == 1 ? x - y : x * y;
                        ov = uns ? (z < 0 || z >= ((i128)1 << ww)) : (z < imin(ww) || z > imax(ww));
                    }
                    r.agg->push_back(vI((int64_t)(uint64_t)(u128)z, ww));
                    r.agg->push_back(vI(ov, 1));
                }
                else
                {
                    Z3_ast x = uns ? eU(a[0]) : eI(a[0]), y = uns ? eU(a[1]) : eI(a[1]);
                    Z3_ast z = op == 0 ? zadd(x, y) : op == 1 ? zsub(x, y) : zmul(x, y);
                    i128 L   = uns ? 0 : imin(ww), H = uns ? ((i128)1 << ww) - 1 : imax(ww);
                    Z3_ast ov = znot(zand(zle(kI(L), z), zle(z, kI(H))));
                    r.agg->push_back(mkS(z, ww, -((i128)1 << 120), ((i128)1 << 120)));
                    r.agg->push_back(vBool(simp(ov)));
                }
                ret(r);
                return true;
            }
            case Intrinsic::usub_sat:
            {
                Val c = icmpV(s, CmpInst::ICMP_ULT, a[0], a[1], w);
                if (!c.sym)
                {
                    ret((c.c & 1) ? vI(0, w) : binII(s, Instruction::Sub, a[0], a[1], w, false, nullptr));
                    return true;
                }
                ret(mkS(zite(c.e, kI(0), zsub(eU(a[0]), eU(a[1]))), w, 0, ((i128)1 << w) - 1));
                return true;
            }
            case Intrinsic::ctlz:
            case Intrinsic::cttz:
            case Intrinsic::ctpop:
            {
                uint64_t x = uval(vI(concretise(s, a[0]), w));
                int64_t r;
                if (ii->getIntrinsicID() == Intrinsic::ctpop)
                {
                    r = __builtin_popcountll(x);
                }
                else if (x == 0)
                {
                    r = w;
                }
                else if (ii->getIntrinsicID() == Intrinsic::cttz)
                {
                    r = __builtin_ctzll(x);
                }
                else
                {
                    r = __builtin_clzll(x) - (64 - w);
                }
                ret(vI(r, w));
                return true;
            }
            case Intrinsic::fshl:
            case Intrinsic::fshr:
            {
                if (a[0].sym || a[1].sym || a[2].sym)
                {
                    throw Unsupported{"symbolic funnel shift"};
                }
                unsigned k = uval(a[2]) % w;
                uint64_t x = uval(a[0]), y = uval(a[1]);
                uint64_t r = ii->getIntrinsicID() == Intrinsic::fshl ? (k ? (x << k) | (y >> (w - k)) : x) : (k ? (x << (w - k)) | (y >> k) : y);
                ret(vI((int64_t)r, w));
                return true;
            }
            case Intrinsic::fabs:
            case Intrinsic::floor:
            case Intrinsic::ceil:
            case Intrinsic::trunc:
            case Intrinsic::round:
            case Intrinsic::rint:
            case Intrinsic::nearbyint:
            case Intrinsic::sqrt:
            case Intrinsic::exp:
            case Intrinsic::exp2:
            case Intrinsic::log:
            case Intrinsic::log2:
            case Intrinsic::log10:
            case Intrinsic::sin:
            case Intrinsic::cos:
            case Intrinsic::pow:
            case Intrinsic::powi:
            case Intrinsic::ldexp:
            case Intrinsic::maxnum:
            case Intrinsic::minnum:
            case Intrinsic::fma:
            case Intrinsic::fmuladd:
            case Intrinsic::copysign:
            {
                std::string n = Intrinsic::getBaseName(ii->getIntrinsicID()).str(); // llvm.xxx
                n             = n.substr(5);
                if (!mathFn(s, cb, n, a))
                {
                    throw Unsupported{"math " + n};
                }
                return true;
            }
            case Intrinsic::trap:
            case Intrinsic::ubsantrap:
                oblige(s, "no-abort", kB(false), "trap");
                throw PathEnd{"trap"};
            case Intrinsic::eh_typeid_for:
                ret(vI(0, w));
                return true;
            case Intrinsic::vector_reduce_add:
            {
                Val r = (*a[0].agg)[0];
                for (size_t i = 1; i < a[0].agg->size(); ++i)
                {
                    r = binII(s, Instruction::Add, r, (*a[0].agg)[i], w, false, nullptr);
                }
                ret(r);
                return true;
            }
            default:
                throw Unsupported{"intrinsic " + ii->getCalledFunction()->getName().str()};
        }
    }

    std::vector<uint64_t> fnSteps;

    struct FnKind
    {
        int k        = 0; // 1 body, 2 external, 3 stub, 4 stamped operation
        unsigned opc = 0;
        bool nsw     = false;
    };
    std::unordered_map<const Function*, FnKind> fnKind;

    Val fpToInt(State& s, const Val& a, unsigned w, bool sgn)
    {
        if (a.k != Val::FLT)
        {
            return vUndef(w / 8);
        }
        if (!a.sym)
        {
            if (!std::isfinite(a.d) || std::fabs(a.d) > 9.3e18)
            {
                return vUndef(w / 8); // poison; only a problem if used
            }
            return vI((int64_t)a.d, w);
        }
        Z3_ast t = simp(zite(zle(kD(0), a.e), floorZ(a.e), zsub(kI(0), floorZ(zsub(kD(0), a.e)))));
        i128 L = sgn ? imin(w) : 0, H = sgn ? imax(w) : ((i128)1 << w) - 1;
        if (!oblige(s, "no-float-to-int-overflow", zand(zle(kI(L), t), zle(t, kI(H))), "float to int conversion out of range"))
        {
            throw PathEnd{"fptoi"};
        }
        return mkS(t, w, L, H);
    }

    void doCall(State& s, CallBase* cb)
    {
        Value* cv    = cb->getCalledOperand()->stripPointerCasts();
        Function* fn = dyn_cast<Function>(cv);
        std::vector<Val> args;
        args.reserve(cb->arg_size());
        for (auto& a : cb->args())
        {
            if (isa<MetadataAsValue>(a.get()))
            {
                args.push_back(vUndef());
                continue;
            }
            args.push_back(opV(s, a.get()));
        }
        if (!fn)
        {
            if (isa<InlineAsm>(cv))
            {
                // compiler barriers only
                if (cb->getType()->isVoidTy())
                {
                    finishCall(s, cb, nullptr);
                    return;
                }
                throw Unsupported{"inline asm"};
            }
            if (auto* ga = dyn_cast<GlobalAlias>(cv))
            {
                fn = dyn_cast<Function>(ga->getAliaseeObject());
            }
            else
            {
                Val p = opV(s, cb->getCalledOperand());
                if (p.k != Val::INT)
                {
                    throw Unsupported{"call of undefined pointer"};
                }
                auto it = faddr.find((uint64_t)concretise(s, p));
                if (it == faddr.end())
                {
                    oblige(s, "memory-safety", kB(false), "call through an invalid function pointer");
                    throw PathEnd{"badcall"};
                }
                fn = it->second;
            }
        }
        if (auto* ii = dyn_cast<IntrinsicInst>(cb))
        {
            intrinsic(s, cb, ii, args);
            return;
        }
        FnKind& kd = fnKind[fn];
        if (kd.k == 0)
        {
            std::string nm = fn->getName().str();
            if (nm.rfind("vp.ub.", 0) == 0)
            {
                kd.k   = 4;
                std::string op = nm.substr(6, nm.find('.', 6) - 6);
                static const std::map<std::string, unsigned> ops{{"add", Instruction::Add}, {"sub", Instruction::Sub}, {"mul", Instruction::Mul},
                    {"shl", Instruction::Shl}, {"lshr", Instruction::LShr}, {"ashr", Instruction::AShr}, {"fptosi", Instruction::FPToSI}, {"fptoui", Instruction::FPToUI}};
                kd.opc = ops.at(op);
                kd.nsw = nm.size() > 4 && nm.substr(nm.size() - 4) == ".nsw";
            }
            else if (fn->isDeclaration() || nm.rfind("_ZSt16__throw_", 0) == 0 || nm.find("__throw_") != std::string::npos)
            {
                kd.k = 2;
            }
            else
            {
                kd.k = isStub(nm) ? 3 : 1;
            }
        }
        if (kd.k == 4)
        {
            unsigned w = cb->getType()->getIntegerBitWidth();
            Val r      = (kd.opc == Instruction::FPToSI || kd.opc == Instruction::FPToUI) ? fpToInt(s, args[0], w, kd.opc == Instruction::FPToSI)
                                                                                     : binII(s, kd.opc, args[0], args[1], w, kd.nsw, nullptr);
            finishCall(s, cb, &r);
            return;
        }
        if (kd.k == 2)
        {
            external(s, cb, fn, args);
            return;
        }
        if (kd.k == 3)
        {
            if (cb->getType()->isVoidTy())
            {
                if (fn->getName().contains("__to_xstring") || fn->getName().contains("stringstreamIcSt11char_traitsIcESaIcEE3strEv"))
                {
                    // the text is not modelled: an empty string
                    Type* i64 = Type::getInt64Ty(M.getContext());
                    Val buf   = addPtr(args[0], 16);
                    storeV(s, args[0], buf, i64);
                    storeV(s, addPtr(args[0], 8), vI(0, 64), i64);
                    storeV(s, buf, vI(0, 8), Type::getInt8Ty(M.getContext()));
                }
                finishCall(s, cb, nullptr);
            }
            else
            {
                Val z = cb->getType()->isIntegerTy() ? vI(0, cb->getType()->getIntegerBitWidth())
                        : (cb->getType()->isPointerTy() && !args.empty()) ? args[0]
                                                                         : undefAgg(cb->getType());
                finishCall(s, cb, &z);
            }
            return;
        }
        pushFrame(s, fn, args, cb);
    }

    // terminal output and text only
    static bool outputOnly(const std::string& nm)
    {
        if (nm.find("__to_xstring") != std::string::npos)
        {
            return true;
        }
        std::string d = demangle(nm);
        return d.rfind("fmt::", 0) == 0 || d.find("std::ostream& std::operator<<") != std::string::npos || d.rfind("std::basic_ostream", 0) == 0
            || d.rfind("std::ostream::operator<<", 0) == 0 || d.find("stringstream") != std::string::npos || d.find(" fmt::v9::") != std::string::npos;
    }

    std::unordered_map<std::string, bool> stubCache;

    bool isStub(const std::string& nm)
    {
        auto it = stubCache.find(nm);
        if (it != stubCache.end())
        {
            return it->second;
        }
        bool r = outputOnly(nm);
        stubCache[nm] = r;
        return r;
    }

    void stepOne(State& s)
    {
        Frame& f       = *s.stack.back();
        Instruction* I = &*f.pc;
        ++s.steps;
        ++steps;
        if (opt_trace > 2)
        {
            std::string str;
            raw_string_ostream os(str);
            I->print(os);
            std::cerr << os.str() << "\n";
        }
        if ((steps & 0xfff) == 0)
        {
            if (now() > deadline || steps > opt_max_steps)
            {
                boundHit = true;
                throw Unsupported{steps > opt_max_steps ? "step budget" : "time budget"};
            }
        }
        auto set = [&](const Val& v)
        {
            setV(s, I, v);
            ++top(s).pc;
        };
        unsigned opc = I->getOpcode();
        switch (opc)
        {
            case Instruction::Ret:
            {
                auto* r = cast<ReturnInst>(I);
                if (r->getReturnValue())
                {
                    Val v = opV(s, r->getReturnValue());
                    if (pure && s.stack.size() == pureDepth + 1)
                    {
                        pureRet = v;
                    }
                    doReturn(s, &v);
                }
                else
                {
                    doReturn(s, nullptr);
                }
                return;
            }
            case Instruction::Br:
            {
                auto* b = cast<BranchInst>(I);
                if (b->isUnconditional())
                {
                    jump(s, b->getSuccessor(0));
                }
                else
                {
                    branch(s, opV(s, b->getCondition()), b->getSuccessor(0), b->getSuccessor(1));
                }
                return;
            }
            case Instruction::Switch:
            {
                auto* sw = cast<SwitchInst>(I);
                Val c    = opV(s, sw->getCondition());
                if (c.k != Val::INT)
                {
                    oblige(s, "no-uninitialised-read", kB(false), "switch on an uninitialised value");
                    throw PathEnd{"undef"};
                }
                if (c.sym)
                {
                    if (c.hi - c.lo > 4096)
                    {
                        // test cases one by one
                        for (auto& cs : sw->cases())
                        {
                            int r = decide(s, zeq(c.e, kI(cs.getCaseValue()->getSExtValue())));
                            if (r == 2)
                            {
                                pendRetry();
                            }
                            if (r)
                            {
                                jump(s, cs.getCaseSuccessor());
                                return;
                            }
                        }
                        jump(s, sw->getDefaultDest());
                        return;
                    }
                    c = vI(concretise(s, c), c.w);
                }
                for (auto& cs : sw->cases())
                {
                    if (canon((u128)(i128)cs.getCaseValue()->getSExtValue(), c.w) == c.c)
                    {
                        jump(s, cs.getCaseSuccessor());
                        return;
                    }
                }
                jump(s, sw->getDefaultDest());
                return;
            }
            case Instruction::Unreachable:
                oblige(s, "no-unreachable", kB(false), "unreachable code reached (e.g. missing return)");
                throw PathEnd{"unreachable"};
            case Instruction::Alloca:
            {
                auto* a    = cast<AllocaInst>(I);
                uint64_t n = DL.getTypeAllocSize(a->getAllocatedType());
                if (a->isArrayAllocation())
                {
                    n *= (uint64_t)concretise(s, opV(s, a->getArraySize()));
                }
                uint32_t id = alloc(s, n, a->getName().str(), false, true);
                top(s).allocas.push_back(id);
                set(vI((int64_t)s.mem[id - 1]->base, 64));
                return;
            }
            case Instruction::Load:
            {
                auto* l = cast<LoadInst>(I);
                set(loadV(s, opV(s, l->getPointerOperand()), l->getType()));
                return;
            }
            case Instruction::Store:
            {
                auto* st = cast<StoreInst>(I);
                storeV(s, opV(s, st->getPointerOperand()), opV(s, st->getValueOperand()), st->getValueOperand()->getType());
                ++top(s).pc;
                return;
            }
            case Instruction::GetElementPtr:
            {
                auto* g = cast<GetElementPtrInst>(I);
                Val p   = opV(s, g->getPointerOperand());
                if (p.k != Val::INT)
                {
                    set(vUndef(8));
                    return;
                }
                int64_t cst = 0;
                Val dyn     = vI(0, 64);
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
                {
                    if (StructType* st = it.getStructTypeOrNull())
                    {
                        unsigned k = (unsigned)cast<ConstantInt>(it.getOperand())->getZExtValue();
                        cst += (int64_t)DL.getStructLayout(st)->getElementOffset(k);
                    }
                    else
                    {
                        int64_t es = (int64_t)DL.getTypeAllocSize(it.getIndexedType()).getFixedValue();
                        Val ix     = opV(s, it.getOperand());
                        if (ix.k != Val::INT)
                        {
                            ix = asInt(ix, 64);
                        }
                        if (!ix.sym)
                        {
                            cst += ix.c * es;
                        }
                        else
                        {
                            Val t = mkS(es == 1 ? ix.e : zmul(kI(es), ix.e), 64, ix.lo * es < imin(64) ? imin(64) : ix.lo * es, ix.hi * es > imax(64) ? imax(64) : ix.hi * es);
                            dyn   = binII(s, Instruction::Add, dyn, t, 64, false, nullptr);
                        }
                    }
                }
                if (!dyn.sym && dyn.c == 0)
                {
                    set(addPtr(p, cst));
                    return;
                }
                uint32_t pr = p.prov ? p.prov : (p.sym ? 0 : findObj(s, (uint64_t)p.c));
                Z3_ast e    = simp(zadd(zadd(eI(p), eI(dyn)), kI(cst)));
                Val r       = mkS(e, 64, imin(64), imax(64));
                r.prov      = pr;
                set(r);
                return;
            }
            case Instruction::PHI:
                throw Unsupported{"phi executed"};
            case Instruction::Select:
            {
                auto* sl = cast<SelectInst>(I);
                Val c    = opV(s, sl->getCondition());
                Val a = opV(s, sl->getTrueValue()), b = opV(s, sl->getFalseValue());
                if (c.k != Val::INT)
                {
                    if (c.k == Val::UNDEF)
                    {
                        set(vUndef(DL.getTypeStoreSize(I->getType())));
                        return;
                    }
                    throw Unsupported{"vector select"};
                }
                if (!c.sym)
                {
                    set((c.c & 1) ? a : b);
                    return;
                }
                if (I->getType()->isIntegerTy() && a.k == Val::INT && b.k == Val::INT && a.prov == b.prov)
                {
                    unsigned w = I->getType()->getIntegerBitWidth();
                    if (w == 1)
                    {
                        set(vBool(simp(zite(c.e, eB(a), eB(b)))));
                        return;
                    }
                    Val r  = mkS(zite(c.e, eI(a), eI(b)), w, std::min(a.lo, b.lo), std::max(a.hi, b.hi));
                    r.prov = a.prov;
                    set(r);
                    return;
                }
                if (a.k == Val::FLT && b.k == Val::FLT && (a.sym || std::isfinite(a.d)) && (b.sym || std::isfinite(b.d)))
                {
                    set(normF(zite(c.e, eF(a), eF(b))));
                    return;
                }
                int r = decide(s, c.e);
                if (r == 2)
                {
                    pendRetry();
                }
                set(r ? a : b);
                return;
            }
            case Instruction::ICmp:
            {
                auto* c    = cast<ICmpInst>(I);
                Type* t    = c->getOperand(0)->getType();
                if (t->isVectorTy())
                {
                    throw Unsupported{"vector icmp"};
                }
                unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
                set(icmpV(s, c->getPredicate(), opV(s, c->getOperand(0)), opV(s, c->getOperand(1)), w));
                return;
            }
            case Instruction::FCmp:
            {
                auto* c = cast<FCmpInst>(I);
                set(fcmpV(c->getPredicate(), opV(s, c->getOperand(0)), opV(s, c->getOperand(1))));
                return;
            }
            case Instruction::Add:
            case Instruction::Sub:
            case Instruction::Mul:
            case Instruction::And:
            case Instruction::Or:
            case Instruction::Xor:
            case Instruction::Shl:
            case Instruction::LShr:
            case Instruction::AShr:
            case Instruction::SDiv:
            case Instruction::SRem:
            case Instruction::UDiv:
            case Instruction::URem:
            {
                Val a = opV(s, I->getOperand(0)), b = opV(s, I->getOperand(1));
                if (I->getType()->isVectorTy())
                {
                    Val r;
                    r.k        = Val::AGG;
                    r.agg      = std::make_shared<std::vector<Val>>();
                    unsigned w = I->getType()->getScalarSizeInBits();
                    for (size_t i = 0; i < a.agg->size(); ++i)
                    {
                        r.agg->push_back(binII(s, opc, (*a.agg)[i], (*b.agg)[i], w, false, nullptr));
                    }
                    set(r);
                    return;
                }
                set(binI(s, I, opc, a, b));
                return;
            }
            case Instruction::FAdd:
            case Instruction::FSub:
            case Instruction::FMul:
            case Instruction::FDiv:
            case Instruction::FRem:
            {
                Val a = opV(s, I->getOperand(0)), b = opV(s, I->getOperand(1));
                if (I->getType()->isVectorTy())
                {
                    Val r;
                    r.k   = Val::AGG;
                    r.agg = std::make_shared<std::vector<Val>>();
                    for (size_t i = 0; i < a.agg->size(); ++i)
                    {
                        r.agg->push_back(binF(s, opc, (*a.agg)[i], (*b.agg)[i]));
                    }
                    set(r);
                    return;
                }
                set(binF(s, opc, a, b));
                return;
            }
            case Instruction::FNeg:
            {
                Val a = opV(s, I->getOperand(0));
                if (a.k != Val::FLT)
                {
                    set(a);
                    return;
                }
                set(a.sym ? normF(zsub(kD(0), a.e)) : vD(-a.d));
                return;
            }
            case Instruction::ZExt:
            case Instruction::SExt:
            case Instruction::Trunc:
            {
                Val a      = opV(s, I->getOperand(0));
                if (I->getType()->isVectorTy())
                {
                    throw Unsupported{"vector cast"};
                }
                unsigned w = I->getType()->getIntegerBitWidth();
                unsigned w0 = I->getOperand(0)->getType()->getIntegerBitWidth();
                if (a.k == Val::UNDEF)
                {
                    if (opc == Instruction::ZExt && w % 8 == 0 && w0 % 8 == 0)
                    {
                        Val u = vUndef(w0 / 8), z = vI(0, w - w0);
                        u.bs  = w0 / 8;
                        z.bs  = (w - w0) / 8;
                        if (z.w <= 64)
                        {
                            set(fromPieces({u, z}, w / 8));
                            return;
                        }
                    }
                    set(vUndef((w + 7) / 8));
                    return;
                }
                if (opc == Instruction::Trunc && a.k != Val::INT)
                {
                    if (w % 8 == 0)
                    {
                        auto p = pieces(a, w0 / 8);
                        std::vector<Val> q;
                        unsigned pos = 0;
                        for (auto& x : p)
                        {
                            if (pos >= w / 8)
                            {
                                break;
                            }
                            unsigned m = std::min<unsigned>(x.bs, w / 8 - pos);
                            Val y      = extract(x, x.bs, 0, m);
                            y.bs       = m;
                            q.push_back(y);
                            pos += m;
                        }
                        set(fromPieces(q, w / 8));
                        return;
                    }
                    a = asInt(a, w0);
                }
                if (w > 64 || w0 > 64)
                {
                    if (opc == Instruction::ZExt)
                    {
                        auto p  = pieces(a, w0 / 8);
                        Val z   = vI(0, std::min(64u, w - w0));
                        z.bs    = (w - w0) / 8;
                        p.push_back(z);
                        set(fromPieces(p, w / 8));
                        return;
                    }
                    if (opc == Instruction::SExt && !a.sym && a.k == Val::INT)
                    {
                        Val v = a;
                        v.w   = w;
                        set(v);
                        return;
                    }
                    if (opc == Instruction::Trunc && a.k == Val::INT && !a.sym)
                    {
                        set(vI(a.c, w));
                        return;
                    }
                    throw Unsupported{"wide cast"};
                }
                if (a.k != Val::INT)
                {
                    if (opc == Instruction::ZExt)
                    {
                        auto p = pieces(a, w0 / 8);
                        Val z  = vI(0, w - w0);
                        z.bs   = (w - w0) / 8;
                        p.push_back(z);
                        set(fromPieces(p, w / 8));
                        return;
                    }
                    a = asInt(a, w0);
                }
                if (opc == Instruction::ZExt && a.sym && w0 == 32 && w == 64)
                {
                    // two 32-bit values packed into one register (coerced aggregates): keep the pieces
                    bool pack = !I->use_empty();
                    for (auto* u : I->users())
                    {
                        auto* ui = dyn_cast<Instruction>(u);
                        pack     = pack && ui && (ui->getOpcode() == Instruction::Or || ui->getOpcode() == Instruction::Shl);
                    }
                    if (pack)
                    {
                        auto p = pieces(a, 4);
                        Val z  = vI(0, 32);
                        z.bs   = 4;
                        p.push_back(z);
                        set(fromPieces(p, 8));
                        return;
                    }
                }
                if (opc == Instruction::ZExt)
                {
                    set(zextV(a, w));
                }
                else if (opc == Instruction::SExt)
                {
                    set(sextV(a, w));
                }
                else
                {
                    set(truncV(a, w));
                }
                return;
            }
            case Instruction::SIToFP:
            case Instruction::UIToFP:
            {
                unsigned w0 = I->getOperand(0)->getType()->getIntegerBitWidth();
                Val a       = opV(s, I->getOperand(0));
                if (a.k == Val::UNDEF)
                {
                    set(vUndef(8));
                    return;
                }
                a = asInt(a, w0);
                if (!a.sym)
                {
                    set(vD(opc == Instruction::SIToFP ? (double)(a.w == 1 ? -(a.c & 1) : a.c) : (double)uval(a)));
                    return;
                }
                Z3_ast e = opc == Instruction::SIToFP ? eI(a) : eU(a);
                if (a.w == 1 && opc == Instruction::SIToFP)
                {
                    e = zsub(kI(0), e);
                }
                set(normF(R(Z3_mk_int2real(Z, e))));
                return;
            }
            case Instruction::FPToSI:
            case Instruction::FPToUI:
            {
                set(fpToInt(s, opV(s, I->getOperand(0)), I->getType()->getIntegerBitWidth(), opc == Instruction::FPToSI));
                return;
            }
            case Instruction::FPExt:
            case Instruction::FPTrunc:
            {
                Val a = opV(s, I->getOperand(0));
                if (opc == Instruction::FPTrunc && a.k == Val::FLT && !a.sym && I->getType()->isFloatTy())
                {
                    set(vD((double)(float)a.d));
                    return;
                }
                set(a);
                return;
            }
            case Instruction::BitCast:
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::AddrSpaceCast:
            {
                Val a = opV(s, I->getOperand(0));
                if (opc == Instruction::BitCast)
                {
                    Type *st = I->getOperand(0)->getType(), *dt = I->getType();
                    if (st->isVectorTy() || dt->isVectorTy())
                    {
                        throw Unsupported{"vector bitcast"};
                    }
                    if (st->isIntegerTy() && dt->isFloatingPointTy())
                    {
                        a = fromRaw(a, dt);
                    }
                    else if (st->isFloatingPointTy() && dt->isIntegerTy())
                    {
                        if (a.k == Val::FLT && !a.sym)
                        {
                            a = asInt(a, dt->getIntegerBitWidth());
                        }
                    }
                }
                set(a);
                return;
            }
            case Instruction::Freeze:
            {
                Val a = opV(s, I->getOperand(0));
                if (a.k == Val::UNDEF)
                {
                    Type* t = I->getType();
                    if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64)
                    {
                        a = vI(0, t->getIntegerBitWidth());
                        Z3_ast fe;
                        unsigned w = t->getIntegerBitWidth();
                        (void)fe;
                        a = freshInt("freeze", w);
                        if (w > 1)
                        {
                            s.pc.push_back(zand(zle(kI(imin(w)), a.e), zle(a.e, kI(imax(w)))));
                        }
                    }
                }
                set(a);
                return;
            }
            case Instruction::ExtractValue:
            {
                auto* x = cast<ExtractValueInst>(I);
                Val a   = opV(s, x->getAggregateOperand());
                for (unsigned k : x->indices())
                {
                    if (a.k != Val::AGG)
                    {
                        set(vUndef());
                        return;
                    }
                    Val t = (*a.agg)[k];
                    a     = t;
                }
                set(a);
                return;
            }
            case Instruction::InsertValue:
            {
                auto* x = cast<InsertValueInst>(I);
                Val a   = opV(s, x->getAggregateOperand());
                Val v   = opV(s, x->getInsertedValueOperand());
                a       = insertAt(a, x->getIndices(), 0, v);
                set(a);
                return;
            }
            case Instruction::ExtractElement:
            {
                Val a = opV(s, I->getOperand(0));
                Val k = opV(s, I->getOperand(1));
                set((*a.agg)[(size_t)concretise(s, k)]);
                return;
            }
            case Instruction::InsertElement:
            {
                Val a   = opV(s, I->getOperand(0));
                Val v   = opV(s, I->getOperand(1));
                Val k   = opV(s, I->getOperand(2));
                auto ag = std::make_shared<std::vector<Val>>(*a.agg);
                (*ag)[(size_t)concretise(s, k)] = v;
                a.agg = ag;
                set(a);
                return;
            }
            case Instruction::ShuffleVector:
            {
                auto* sv = cast<ShuffleVectorInst>(I);
                Val a = opV(s, I->getOperand(0)), b = opV(s, I->getOperand(1));
                Val r;
                r.k   = Val::AGG;
                r.agg = std::make_shared<std::vector<Val>>();
                for (int m : sv->getShuffleMask())
                {
                    if (m < 0)
                    {
                        r.agg->push_back(vUndef());
                    }
                    else if ((size_t)m < a.agg->size())
                    {
                        r.agg->push_back((*a.agg)[m]);
                    }
                    else
                    {
                        r.agg->push_back((*b.agg)[m - a.agg->size()]);
                    }
                }
                set(r);
                return;
            }
            case Instruction::Call:
            case Instruction::Invoke:
                doCall(s, cast<CallBase>(I));
                return;
            case Instruction::LandingPad:
            case Instruction::Resume:
                throw Unsupported{"exception path"};
            case Instruction::AtomicRMW:
            {
                auto* r = cast<AtomicRMWInst>(I);
                Val p   = opV(s, r->getPointerOperand());
                Val old = loadV(s, p, r->getType());
                Val v   = opV(s, r->getValOperand());
                unsigned w = r->getType()->getIntegerBitWidth();
                Val n;
                if (r->getOperation() == AtomicRMWInst::Add)
                {
                    n = binII(s, Instruction::Add, old, v, w, false, nullptr);
                }
                else if (r->getOperation() == AtomicRMWInst::Sub)
                {
                    n = binII(s, Instruction::Sub, old, v, w, false, nullptr);
                }
                else if (r->getOperation() == AtomicRMWInst::Xchg)
                {
                    n = v;
                }
                else
                {
                    throw Unsupported{"atomicrmw"};
                }
                storeV(s, p, n, r->getType());
                set(old);
                return;
            }
            case Instruction::Fence:
                ++top(s).pc;
                return;
            default:
                throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
        }
    }

    Val insertAt(const Val& a, ArrayRef<unsigned> idx, unsigned d, const Val& v)
    {
        if (d == idx.size())
        {
            return v;
        }
        Val r = a;
        if (r.k != Val::AGG)
        {
            throw Unsupported{"insertvalue in non aggregate"};
        }
        auto ag          = std::make_shared<std::vector<Val>>(*r.agg);
        (*ag)[idx[d]]    = insertAt((*ag)[idx[d]], idx, d + 1, v);
        r.agg            = ag;
        return r;
    }
