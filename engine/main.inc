static std::string js(const std::string& s)
{
    std::string r = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c == '\n')
        {
            r += "\\n";
        }
        else if ((unsigned char)c < 32)
        {
            r += ' ';
        }
        else
        {
            r += c;
        }
    }
    return r + "\"";
}

// Operations whose undefined behaviour is an obligation are made opaque before any optimisation, so that no pass can
// drop, hoist or exploit them: the engine executes them with their original meaning.
static void stampUB(Module& M)
{
    std::vector<Instruction*> todo;
    for (auto& f : M)
    {
        for (auto& b : f)
        {
            for (auto& i : b)
            {
                if (i.getType()->isVectorTy())
                {
                    continue;
                }
                unsigned w = i.getType()->isIntegerTy() ? i.getType()->getIntegerBitWidth() : 0;
                if (auto* o = dyn_cast<BinaryOperator>(&i))
                {
                    unsigned c = o->getOpcode();
                    bool nsw   = isa<OverflowingBinaryOperator>(o) && o->hasNoSignedWrap() && w <= 64;
                    bool sh    = (c == Instruction::Shl || c == Instruction::LShr || c == Instruction::AShr) && !isa<ConstantInt>(o->getOperand(1)) && w <= 64;
                    if (nsw || sh)
                    {
                        todo.push_back(o);
                    }
                }
                else if (isa<FPToSIInst>(&i) || isa<FPToUIInst>(&i))
                {
                    if (w <= 64)
                    {
                        todo.push_back(&i);
                    }
                }
            }
        }
    }
    for (auto* i : todo)
    {
        unsigned w       = i->getType()->getIntegerBitWidth();
        std::string name = std::string("vp.ub.") + i->getOpcodeName() + ".i" + std::to_string(w);
        std::vector<Type*> at;
        std::vector<Value*> av;
        for (auto& o : i->operands())
        {
            at.push_back(o->getType());
            av.push_back(o.get());
        }
        if (at[0]->isFloatTy())
        {
            name += ".f32";
        }
        else if (at[0]->isX86_FP80Ty())
        {
            name += ".f80";
        }
        if (isa<OverflowingBinaryOperator>(i) && cast<OverflowingBinaryOperator>(i)->hasNoSignedWrap())
        {
            name += ".nsw";
        }
        auto fc  = M.getOrInsertFunction(name, FunctionType::get(i->getType(), at, false));
        auto* fn = cast<Function>(fc.getCallee());
        fn->setDoesNotAccessMemory();
        fn->setDoesNotThrow();
        auto* c = CallInst::Create(fc, av, "", i);
        c->setDebugLoc(i->getDebugLoc());
        c->takeName(i);
        i->replaceAllUsesWith(c);
        i->eraseFromParent();
    }
}

int main(int argc, char** argv)
{
    std::string in, out;
    std::vector<std::string> entries;
    bool list = false, dumpir = false;
    std::string emitbc;
    std::string pipeline = "globaldce,function(sroa,simplifycfg),cgscc(inline),globaldce,function(sroa,simplifycfg,early-cse,instsimplify,simplifycfg,sroa,early-cse,simplifycfg,dce)";
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx       = [&]
        {
            return std::string(argv[++i]);
        };
        if (a == "-o")
        {
            out = nx();
        }
        else if (a == "--entry")
        {
            entries.push_back(nx());
        }
        else if (a == "--time")
        {
            opt_time = std::stod(nx());
        }
        else if (a == "--steps")
        {
            opt_max_steps = std::stoull(nx());
        }
        else if (a == "--qtimeout")
        {
            opt_qtimeout = std::stoul(nx());
        }
        else if (a == "--trace")
        {
            opt_trace = std::stoi(nx());
        }
        else if (a == "--dump-smt")
        {
            opt_dump_smt = nx();
        }
        else if (a == "--passes")
        {
            pipeline = nx();
        }
        else if (a == "--emit-bc")
        {
            emitbc = nx();
        }
        else if (a == "--list")
        {
            list = true;
        }
        else if (a == "--dump-ir")
        {
            dumpir = true;
        }
        else
        {
            in = a;
        }
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(in, err, ctx);
    if (!M)
    {
        err.print("vpv", errs());
        return 3;
    }
    if (list)
    {
        for (auto& f : *M)
        {
            if (f.getName().starts_with("vc_") && !f.isDeclaration())
            {
                std::cout << f.getName().str() << "\n";
            }
        }
        return 0;
    }
    {
        const char* av[] = {"vpv", "-inline-threshold=400"};
        cl::ParseCommandLineOptions(2, av);
    }
    if (pipeline == "none")
    {
        pipeline = "";
    }
    else
    {
        for (auto& f : *M)
        {
            if (!f.isDeclaration() && !f.getName().starts_with("vc_"))
            {
                f.setComdat(nullptr);
                f.setLinkage(GlobalValue::InternalLinkage);
                if (f.getName().starts_with("__cxx_global_var_init") || Engine::outputOnly(f.getName().str()))
                {
                    f.removeFnAttr(Attribute::AlwaysInline);
                    f.addFnAttr(Attribute::NoInline);
                }
            }
        }
        stampUB(*M);
    }
    if (!pipeline.empty())
    {
        LoopAnalysisManager LAM;
        FunctionAnalysisManager FAM;
        CGSCCAnalysisManager CGAM;
        ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM);
        PB.registerCGSCCAnalyses(CGAM);
        PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, pipeline))
        {
            errs() << "bad pipeline " << toString(std::move(e)) << "\n";
            return 3;
        }
        MPM.run(*M, MAM);
    }
    if (!emitbc.empty())
    {
        std::error_code ec;
        raw_fd_ostream o(emitbc, ec);
        if (ec)
        {
            errs() << ec.message() << "\n";
            return 3;
        }
        WriteBitcodeToFile(*M, o);
        for (auto& f : *M)
        {
            if (f.getName().starts_with("vc_") && !f.isDeclaration())
            {
                std::cout << f.getName().str() << "\n";
            }
        }
        return 0;
    }
    if (dumpir)
    {
        M->print(outs(), nullptr);
        return 0;
    }
    if (entries.empty())
    {
        for (auto& f : *M)
        {
            if (f.getName().starts_with("vc_") && !f.isDeclaration())
            {
                entries.push_back(f.getName().str());
            }
        }
    }
    Z3_config cfg = Z3_mk_config();
    Z             = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(Z,
                         [](Z3_context c, Z3_error_code e)
                         {
                             throw Unsupported{std::string("z3 error: ") + Z3_get_error_msg(c, e)};
                         });
    sInt  = Z3_mk_int_sort(Z);
    sReal = Z3_mk_real_sort(Z);
    sBool = Z3_mk_bool_sort(Z);
    Z3_inc_ref(Z, Z3_sort_to_ast(Z, sInt));
    Z3_inc_ref(Z, Z3_sort_to_ast(Z, sReal));
    Z3_inc_ref(Z, Z3_sort_to_ast(Z, sBool));

    std::ostringstream js_out;
    js_out << "{\"module\":" << js(in) << ",\"entries\":[";
    bool firstE = true;
    Engine G(*M);
    // globals
    State g;
    {
        uint64_t fa = 0x100000;
        for (auto& f : *M)
        {
            G.gaddr[&f] = fa;
            G.faddr[fa] = &f;
            fa += 16;
        }
        std::vector<std::pair<const GlobalVariable*, uint32_t>> gv;
        for (auto& v : M->globals())
        {
            uint64_t n = v.getValueType()->isSized() ? (uint64_t)G.DL.getTypeAllocSize(v.getValueType()) : 8;
            uint32_t id = G.alloc(g, n, "@" + v.getName().str());
            G.gaddr[&v] = g.mem[id - 1]->base;
            gv.push_back({&v, id});
        }
        for (auto& p : gv)
        {
            Obj& o = *g.mem[p.second - 1];
            if (p.first->hasInitializer())
            {
                try
                {
                    G.initConst(g, o, 0, p.first->getInitializer());
                }
                catch (Unsupported& u)
                {
                }
            }
            else
            {
                // external globals (vtables of std, cout...): zero
                std::fill(o.st.begin(), o.st.end(), 1);
            }
            o.konst = p.first->isConstant();
        }
    }
    auto mkSolver = [&]
    {
        S = Z3_mk_simple_solver(Z);
        Z3_solver_inc_ref(Z, S);
        Z3_params pr = Z3_mk_params(Z);
        Z3_params_inc_ref(Z, pr);
        Z3_params_set_uint(Z, pr, Z3_mk_string_symbol(Z, "timeout"), opt_qtimeout);
        Z3_solver_set_params(Z, S, pr);
    };
    mkSolver();
    // global constructors
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
    {
        if (auto* ca = dyn_cast_or_null<ConstantArray>(gc->getInitializer()))
        {
            // one by one: an initialiser out of reach (of a library that is only linked in) leaves the others in place
            std::vector<Function*> inits;
            for (auto& op : ca->operands())
            {
                auto* cs = cast<ConstantStruct>(op);
                auto* fn = dyn_cast<Function>(cs->getOperand(1));
                if (!fn || fn->isDeclaration())
                {
                    continue;
                }
                std::vector<Function*> parts;
                bool plain = fn->size() == 1;
                for (auto& i : fn->getEntryBlock())
                {
                    auto* cb = dyn_cast<CallBase>(&i);
                    auto* f  = cb ? cb->getCalledFunction() : nullptr;
                    if (f && f->getName().starts_with("__cxx_global_var_init"))
                    {
                        parts.push_back(f);
                    }
                    else if (!i.isTerminator() && !isa<DbgInfoIntrinsic>(i))
                    {
                        plain = false;
                    }
                }
                if (plain)
                {
                    inits.insert(inits.end(), parts.begin(), parts.end());
                }
                else
                {
                    inits.push_back(fn);
                }
            }
            for (auto* fn : inits)
            {
                auto t = std::make_unique<State>(g);
                G.t0   = now();
                try
                {
                    G.pushFrame(*t, fn, {}, nullptr);
                    while (!t->stack.empty())
                    {
                        G.stepOne(*t);
                    }
                    g = *t;
                }
                catch (Unsupported& u)
                {
                    if (opt_trace)
                    {
                        std::cerr << "ctor " << fn->getName().str() << ": " << u.why << "\n";
                    }
                }
                catch (PathEnd& u)
                {
                    if (opt_trace)
                    {
                        std::cerr << "ctor " << fn->getName().str() << ": end " << u.why << "\n";
                    }
                }
            }
        }
    }
    std::thread(
        []
        {
            for (;;)
            {
                std::this_thread::sleep_for(std::chrono::milliseconds(500));
                if (now() > deadline + 3)
                {
                    Z3_interrupt(Z); // the query returns unknown; the exploration then stops at the deadline
                }
            }
        })
        .detach();
    for (auto& en : entries)
    {
        Function* fn = M->getFunction(en);
        if (!fn || fn->isDeclaration())
        {
            std::cerr << "no entry " << en << "\n";
            return 3;
        }
        G.obs.clear();
        G.visited.clear();
        G.covers.clear();
        G.cexs.clear();
        G.cexcount.clear();
        G.undecided.clear();
        G.called.clear();
        G.paths = G.killed = G.steps = G.queries = G.forks = G.cutpaths = 0;
        G.solver_t                                                     = 0;
        G.boundHit                                                     = false;
        G.t0                                                           = now();
        deadline                                                       = now() + opt_time;
        Z3_solver_reset(Z, S);
        G.spc.clear();
        G.work.clear();
        auto s = std::make_unique<State>(g);
        std::shared_ptr<ModelH> m;
        G.check(*s, kB(true), &m);
        s->model = m;
        G.pushFrame(*s, fn, {}, nullptr);
        G.work.push_back(std::move(s));
        while (!G.work.empty())
        {
            StateP t = std::move(G.work.back());
            G.work.pop_back();
            std::string lastw;
            try
            {
                if (now() > deadline)
                {
                    G.boundHit = true;
                    throw Unsupported{"time budget"};
                }
                if (G.paths > opt_max_paths)
                {
                    throw Unsupported{"path budget"};
                }
                while (!t->stack.empty())
                {
                    G.stepOne(*t);
                }
                ++G.paths;
            }
            catch (Unsupported& u)
            {
                std::string w = t->stack.empty() ? "" : G.where(*t);
                if (u.why != "time budget" || G.cexs.empty())
                {
                    G.undecided["unsupported: " + u.why + " @ " + w]++;
                }
                if (G.boundHit || u.why == "path budget")
                {
                    G.work.clear();
                    break;
                }
            }
            catch (PathEnd& p)
            {
                ++G.killed;
                if (opt_trace)
                {
                    std::cerr << "path end: " << p.why << "\n";
                }
            }
        }
        js_out << (firstE ? "" : ",") << "\n{\"entry\":" << js(en) << ",\"paths\":" << G.paths << ",\"killed\":" << G.killed
               << ",\"cutpaths\":" << G.cutpaths << ",\"steps\":" << G.steps << ",\"queries\":" << G.queries << ",\"forks\":" << G.forks
               << ",\"solver_s\":" << G.solver_t << ",\"wall_s\":" << now() - G.t0 << ",\"obligations\":[";
        firstE = false;
        bool f = true;
        for (auto& o : G.obs)
        {
            js_out << (f ? "" : ",") << "{\"label\":" << js(o.first) << ",\"vcs\":" << o.second.total << ",\"discharged\":" << o.second.discharged
                   << ",\"by_simplifier\":" << o.second.trivial << ",\"failed\":" << o.second.failed << ",\"unknown\":" << o.second.unknown
                   << ",\"t\":" << o.second.t << "}";
            f = false;
        }
        js_out << "],\"covers\":{";
        f = true;
        for (auto& c : G.covers)
        {
            js_out << (f ? "" : ",") << js(c.first) << ":" << c.second;
            f = false;
        }
        js_out << "},\"undecided\":{";
        f = true;
        for (auto& c : G.undecided)
        {
            js_out << (f ? "" : ",") << js(c.first) << ":" << c.second;
            f = false;
        }
        js_out << "},\"functions\":[";
        f = true;
        std::set<std::string> fs;
        for (auto* bb : G.visited)
        {
            for (auto& i : *bb)
            {
                for (const DILocation* dl = i.getDebugLoc().get(); dl; dl = dl->getInlinedAt())
                {
                    DISubprogram* sp = dl->getScope()->getSubprogram();
                    std::string fnm  = sp->getFilename().str();
                    size_t q         = fnm.find("/include/samurai/");
                    if (q != std::string::npos)
                    {
                        fs.insert(fnm.substr(q + 9) + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str().substr(0, 80));
                    }
                }
            }
        }
        for (auto& d : fs)
        {
            js_out << (f ? "" : ",") << js(d);
            f = false;
        }
        js_out << "],\"cex\":[";
        f = true;
        for (auto& c : G.cexs)
        {
            js_out << (f ? "" : ",") << "{\"label\":" << js(c.label) << ",\"detail\":" << js(c.detail) << ",\"where\":" << js(c.where) << ",\"vals\":[";
            bool h = true;
            for (auto& v : c.vals)
            {
                js_out << (h ? "" : ",") << "[" << js(v.first) << "," << js(v.second) << "]";
                h = false;
            }
            js_out << "],\"notes\":[";
            h = true;
            for (auto& v : c.notes)
            {
                js_out << (h ? "" : ",") << "[" << js(v.first) << "," << js(v.second) << "]";
                h = false;
            }
            js_out << "],\"cells\":[";
            h = true;
            for (auto& v : c.cellvals)
            {
                js_out << (h ? "" : ",") << js(v);
                h = false;
            }
            js_out << "]}";
            f = false;
        }
        js_out << "]}";
    }
    js_out << "\n]}\n";
    if (out.empty())
    {
        std::cout << js_out.str();
    }
    else
    {
        std::ofstream o(out);
        o << js_out.str();
    }
    std::cout.flush();
    _exit(0);
}
