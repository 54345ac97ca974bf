#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
B = "src/actuarialmath/"
def f(*names): return [B + n + ".py" for n in names]
def m(name, where): return dict(name=name, where=where)
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = dict(files=f(*files), mechanism=[m(*x) for x in mechanism])
    if state: a["state"] = [dict(name=n, meaning=me, where=w) for n, me, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop("C01", "The latest accepted assumptions govern every answer",
 "After any history of calls, every answer a model gives - directly or through an m-thly, UDD, Woolhouse or extra-risk view built on it, before or after the change - equals the answer of a freshly built model given only the most recently accepted interest and survival assumptions. Nothing computed under superseded assumptions lingers. It does not matter which equivalent form (i, d, v, delta, nominal i(m) or d(m)) stated the rate, and a custom discount function replaces or is replaced by a rate completely.",
 ["histories", "fault_sequences", "inputs"],
 "all interleavings of set_interest/set_survival calls (in every form, including rejected and interrupted ones) with queries on all model classes and the views on them",
 "Every existing test builds a model, sets its assumptions once and asks; a stale cached value or view only shows when a query, a change of assumptions and the same or a neighbouring query follow one another.",
 ["life", "interest", "survival", "mthly", "udd", "woolhouse", "extrarisk", "insurance", "annuity", "premiums", "policyvalues", "recursion"],
 [("set_interest builds a new Interest value", B+"life.py:Life.set_interest"), ("all rate forms are normalised to i", B+"interest.py:Interest.__init__"),
  ("derived survival forms are closures over the current form", B+"survival.py:Survival.set_survival"), ("views delegate to the wrapped model on every call", B+"mthly.py, udd.py, woolhouse.py, extrarisk.py")],
 [("Life.interest", "current interest assumption", B+"life.py"), ("S,f,l,mu,_MINAGE,_MAXAGE", "current survival assumption", B+"survival.py")],
 ["return values of the public query methods"])

prop("C02", "A rejected change of assumptions changes nothing",
 "When a call that sets interest, survival or recursion facts raises because its arguments are unacceptable (no rate, a discount function that is not one at time zero or fails, a survival function that is not callable, a zero benefit to scale by), every later answer is what it would have been had the call never been made.",
 ["histories", "fault_sequences", "inputs"],
 "every placement of rejected set_interest, set_survival and Recursion setter calls (in every invalid form) within a history of accepted changes and queries",
 "The tests never make a rejected call and then go on using the object.",
 ["life", "interest", "survival", "recursion"],
 [("value validated before it replaces the current one", B+"life.py:Life.set_interest"), ("arguments validated before state is replaced", B+"survival.py:Survival.set_survival"), ("store is written last", B+"recursion.py:Recursion._db_put")])

prop("C03", "Queries are read-only, repeatable and order-independent",
 "Asking a question never changes the answer to any question: for every sequence of queries on a model or view (successful, failing or invalid; insurance, annuity, premium, policy value, lifetime, fractional-age, random-variable, table and frame queries, plots included), each query returns what it would return as the first question put to a freshly built, identically configured object.",
 ["histories", "inputs"],
 "all sequences of public queries with arbitrary arguments on all model classes, including repeats, near-repeats differing in one argument, failing queries and plots",
 "Tests ask each object a few fixed questions in one fixed order and cannot see a cache keyed too coarsely or a query that writes to the model.",
 ["actuarial", "fractional", "lifetime", "insurance", "annuity", "premiums", "policyvalues", "reserves", "lifetable", "selectlife", "sult", "mortalitylaws", "constantforce", "recursion", "mthly", "udd", "woolhouse"],
 [("queries compute from the assumptions and keep no results", B+"insurance.py, annuity.py, premiums.py, policyvalues.py"), ("lookups read the loaded tables", B+"lifetable.py:LifeTable.l_x, selectlife.py:SelectLife._get_sel")])

prop("C04", "Objects do not influence one another",
 "What happens to one object (construction, configuration, loading, queries, failures) never changes the answers of any other object, of the same class or another, whether their operations alternate on one thread or run on several threads each using its own objects; objects are coupled only where one was explicitly built on the other.",
 ["schedules", "histories", "fault_sequences"],
 "all operation-level interleavings of the lives of several objects and all preemptive thread schedules of threads that each own their objects",
 "Tests never have two independently configured objects of one class alive and interleaved, and never use threads, so class-level or module-level state goes unseen.",
 ["life", "survival", "lifetable", "selectlife", "sult", "reserves", "recursion", "policyvalues", "mortalitylaws", "constantforce"],
 [("per-instance tables created in constructors", B+"lifetable.py:LifeTable.__init__, selectlife.py:SelectLife.__init__, reserves.py:Reserves.__init__, recursion.py:Recursion.__init__"), ("default terms created per call", B+"policyvalues.py (contract or Contract())")])

prop("C05", "Overlapping queries on one model return what they return alone",
 "When several read-only queries on the same model overlap - issued from several threads under any preemption schedule, or one issued from inside a benefit, discount or survival function being evaluated by another - every query returns exactly what it would return on its own, and the model's later answers are unaffected. (Recursion objects, whose solution trace is per-object, are covered only for calls nested on one thread.)",
 ["schedules", "histories"],
 "all preemptive schedules (at line and bytecode granularity inside the library) of 2-4 threads querying one shared model or view, and all nestings of queries inside callbacks",
 "Tests are single-threaded with non-reentrant callbacks; a scratch attribute shared by two evaluations only shows under a particular interleaving.",
 ["insurance", "annuity", "premiums", "policyvalues", "reserves", "fractional", "lifetable", "selectlife", "mthly", "udd", "woolhouse", "recursion"],
 [("evaluation state is local to the call", B+"insurance.py:Insurance.A_x, annuity.py:Annuity.a_x, reserves.py:Reserves.t_V")])

prop("C06", "An aborted query leaves no trace",
 "If a query is cut short at any point - its benefit, discount or survival function raises, an interrupt or out-of-memory error arrives at any line, or the trace output stream fails - then all later answers of that model, of views on it and of every other object are as if the query had never been issued.",
 ["crash_points", "fault_sequences", "histories"],
 "every abort point (any executed line or bytecode of the library, any callback evaluation, any stream write) of any query, at any place in a history of queries and reconfigurations",
 "No test aborts a query and then reuses the object; the abort points are every line executed.",
 ["insurance", "annuity", "premiums", "policyvalues", "reserves", "lifetable", "selectlife", "recursion", "mthly", "udd", "woolhouse", "actuarial"],
 [("queries hold no partial state on the object", B+"insurance.py, annuity.py, policyvalues.py"), ("solution trace is replaced at the start of every query", B+"recursion.py:Recursion (self.blog)")])

prop("C07", "Failures surface: an aborted computation never returns a value",
 "When a caller-supplied function (benefit, discount, survival, force, objective) raises while a call is evaluating it, or an interrupt or out-of-memory error arrives inside the call, the call raises and never returns a number, None or a partial sum. Interrupt-style exceptions (KeyboardInterrupt, SystemExit and other non-Exception types) reach the caller with their own type, never converted into an ordinary error.",
 ["crash_points", "fault_sequences", "inputs"],
 "every evaluation index of every caller-supplied function and every executed line of every query, for ordinary and interrupt-style exceptions",
 "No test injects a failure into a callback or an interrupt into a computation.",
 ["insurance", "annuity", "actuarial", "survival", "interest", "mthly", "reserves", "policyvalues"],
 [("numerical integration/summation wraps ordinary failures in an error", B+"insurance.py:Insurance.A_x, annuity.py:Annuity.a_x"), ("solver lets failures of the objective through", B+"actuarial.py:Actuarial.solve")])

prop("C08", "An interrupted load can simply be repeated",
 "If a call that loads or fills data (life table, select table, reserves, recursion facts, survival or interest assumptions) is cut short at any point by an interrupt, an allocation failure or a failing verbose output stream, issuing the same call again completes it: the object then gives the same answers and holds the same table as one on which the call was never interrupted.",
 ["crash_points", "fault_sequences", "histories"],
 "every abort point inside every loading call, with one or several aborted attempts, at any place in a load history",
 "No test interrupts a load.",
 ["lifetable", "selectlife", "reserves", "recursion", "survival", "life"],
 [("fill completes only missing cells, so it is restartable", B+"lifetable.py:LifeTable.fill_table, selectlife.py:SelectLife.fill_table, reserves.py:Reserves.fill_reserves"), ("loads overwrite by key", B+"lifetable.py:LifeTable.set_table")])

prop("C09", "A life table means the mortality it was loaded with, in any load history",
 "However consistent mortality data (any of l, d, q, p columns over an age range) are split over successive set_table/fill_table calls, in whatever order, with whatever repeats and interrupted or failing attempts, the filled table keeps every supplied entry and derives every other from it: l, d, q and p lookups, t-year survival, mortality and deferred mortality, pure endowments at the interest in force, expectations of life (limited or, in a completed table, whole; curtate or complete; first and second moments and variances) and fractional-age values under the assumption chosen (uniform deaths or constant force) inside the age range equal those of the mortality supplied (to the table's rounding).",
 ["histories", "fault_sequences", "inputs"],
 "all partitions, orders, repetitions and column mixes of loads of a consistent mortality basis, with interrupts and queries in between",
 "Tests load one fixed table in one call; the fill loop's fix-point order depends on which cells are present.",
 ["lifetable", "sult", "fractional", "lifetime"],
 [("fix-point filling of missing cells", B+"lifetable.py:LifeTable.fill_table"), ("lookups from the filled l column", B+"lifetable.py:LifeTable.l_x, d_x, p_x, q_x, e_x, E_x"), ("fractional ages from whole ages", B+"fractional.py:Fractional")],
 [("_table", "l,d,q,p columns by age", B+"lifetable.py")])

prop("C10", "A select table means the select mortality it was loaded with",
 "However consistent select-and-ultimate data (l, d, q or e columns) are loaded - whole tables or single select columns, in any order, with repeats and interrupted attempts - the filled table keeps every supplied entry, and l, p, q and d lookups, pure endowments, limited and whole expectations of life and fractional-age values by age and years since selection, select period and ultimate alike, equal those of the select mortality supplied. (Giving a whole table starts the table afresh; giving single columns adds to it.)",
 ["histories", "fault_sequences", "inputs"],
 "all orders and groupings of set_select/set_table/fill_table loads of a consistent select basis, select periods 1-3, with interrupts and queries in between",
 "Tests load a handful of fixed tables in one order.",
 ["selectlife", "fractional"],
 [("fix-point filling by (age, duration)", B+"selectlife.py:SelectLife.fill_table"), ("durations beyond the select period map to ultimate", B+"selectlife.py:SelectLife._get_sel")],
 [("_select", "table columns by selected age and duration", B+"selectlife.py")])

prop("C11", "Recursion never returns a wrong value",
 "When all the facts given to a recursion solver are true of one mortality-and-interest basis, then for every set of facts, in every order of loading, overwriting and removing, at every depth limit, between any other queries, with any display option and after any aborted query, each query returns either the true value of what was asked or no value; it never returns a number that contradicts the facts.",
 ["histories", "programs", "fault_sequences", "configurations"],
 "all subsets of facts (q, p, e, E, A, a, IA, DA with terms, deferrals, benefits, endowments and moments) true of a basis, all load/remove orders, all depths and all queries",
 "Tests use a few dozen textbook fact sets with the one derivation path each needs; the rules fire on any combination of known facts.",
 ["recursion", "insurance", "annuity", "reserves"],
 [("rule search over known facts with a depth limit", B+"recursion.py:Recursion._q_x, _p_x, _e_x, _E_x, _A_x, _a_x, _IA_x, _DA_x")],
 [("db", "known facts", B+"recursion.py")])

prop("C12", "The recursion fact store behaves like a map, scaled by benefit",
 "A fact just given to a recursion solver is returned by the matching query exactly (scaled to the benefit asked for); giving it again replaces it; withdrawing it makes the solver answer as if it had never been given; and facts about different quantities, terms, deferrals, moments or ages never overwrite one another, so the answers depend only on the set of facts in force and not on how it was reached.",
 ["histories", "fault_sequences"],
 "all sequences of set_q/p/e/E/A/a/IA/DA calls, replacements and withdrawals over overlapping keys, interleaved with queries and interrupted or rejected calls",
 "Tests set each fact once and never withdraw or replace it.",
 ["recursion"],
 [("normalised keys", B+"recursion.py:Recursion._db_key"), ("put/remove", B+"recursion.py:Recursion._db_put"), ("benefit scaling", B+"recursion.py:Recursion.set_A/_get_A, set_a/_get_a, set_E/_get_E")])

prop("C13", "Reserve tables keep what was given and satisfy the yearly recursion",
 "After any history of set_reserves and fill_reserves calls (including interrupted ones and interleaved queries), every reserve that was supplied is returned unchanged, the boundary reserves are as given, every filled-in reserve satisfies the one-year recursion with a neighbouring reserve, as that stood when it was filled, under the model's mortality, interest and the contract it was filled with, and filling again with the same contract changes nothing.",
 ["histories", "fault_sequences", "inputs"],
 "all sequences of set_reserves/fill_reserves/t_V/r_V calls with partial reserves, contracts with and without reserve benefit, terms 2-12",
 "Tests fill a few reserve tables from one end once.",
 ["reserves"],
 [("two-pass fill from known neighbours", B+"reserves.py:Reserves.fill_reserves"), ("forward and backward one-year recursion", B+"reserves.py:Reserves.t_V_forward, t_V_backward")],
 [("_reserves", "reserves by duration", B+"reserves.py")])

prop("C14", "After solving, the model is left at the solution",
 "When an unknown is solved for by a function that configures a model and evaluates it, the last evaluation made before the solver returns is at the returned root, so that the model is left configured at the solution and asking it reproduces the target; if an evaluation fails or is interrupted the failure reaches the caller, and a repeated solve gives the same root as an undisturbed one. This holds for root solving and for minimising the absolute difference alike.",
 ["histories", "fault_sequences", "inputs"],
 "all uses of solve with functions that reconfigure one or several shared models, guesses given as points, ranges or lists, nested solves, and failures at any evaluation",
 "Tests look at the returned number only, not at the state of the model the function configured, and never fail an evaluation.",
 ["actuarial"],
 [("function evaluated once more at the root", B+"actuarial.py:Actuarial.solve")])

prop("C15", "Traces never change answers, and silence is silent",
 "For every history of calls, the answers and tables are the same whether tracing is on or off, whichever display form (text or LaTeX, console or notebook) is selected or switched to on the way, and whether or not the output stream works; and an object with tracing off writes nothing.",
 ["configurations", "histories", "fault_sequences"],
 "all histories on traced classes (recursion, life table, select table) replayed under every display configuration, configuration switches at any point, and output streams failing at any write",
 "Tests run every example in a single display configuration with a working stream.",
 ["recursion", "lifetable", "selectlife"],
 [("trace recorded apart from the search", B+"recursion.py:_Blog, PPrint"), ("verbose fill", B+"lifetable.py:LifeTable.fill_table, selectlife.py:SelectLife.fill_table")])

prop("C16", "Arguments stay the caller's",
 "A call never modifies the dicts, lists, contracts or tables passed to it, and an object never remains tied to them: changing, reusing or clearing an argument after the call, or changing a returned frame or a contract derived by renewals, alters no later answer of any object. Nor does a frame, once returned, change by itself when the object is changed afterwards.",
 ["histories", "inputs"],
 "all histories in which arguments (table dicts, select rows, reserve dicts, contracts, grids) are shared between calls and objects and mutated between calls, and returned frames and contracts are mutated",
 "Tests pass literals and never touch them again.",
 ["lifetable", "selectlife", "reserves", "policyvalues", "premiums", "sult"],
 [("columns are copied in", B+"lifetable.py:LifeTable.set_table, selectlife.py:SelectLife.set_table, reserves.py:Reserves.set_reserves"), ("renewals returns a new contract", B+"policyvalues.py:Contract.renewals")])

prop("C17", "Plots draw only where asked and report the computed value",
 "For every interleaving of plotting and other calls over several models and axes, a plot given an axis adds its drawing to that axis alone (plus, when the dual curve is asked for, a twin of it) and opens no figure, and a plot given none draws in one new figure; what it draws is what it would draw alone on a fresh axis, under the title it was given; it returns the value it marks, or None when no time is marked; and no model's later answers change, even when the plot is aborted by a failing benefit function or an interrupt.",
 ["histories", "fault_sequences"],
 "all interleavings of Z_plot, Y_plot, L_plot and V_plot over several models and axes with queries and failing callbacks",
 "Tests do not check what is drawn or where.",
 ["insurance", "annuity", "policyvalues", "reserves"],
 [("drawing through the axis argument", B+"insurance.py:Insurance.Z_plot, annuity.py:Annuity.Y_plot, policyvalues.py:PolicyValues.L_plot, reserves.py:Reserves.V_plot")])

prop("C18", "What a life or select table prices is the sum over the mortality loaded",
 "However a life table or a select-and-ultimate table came to hold its mortality (any split, order, repetition, interruption or refusal of the loads, as in C09 and C10) and however interest was changed before, between or after the loads, the discrete insurances, annuities, net premiums, net and gross policy values it gives (whole life where the table ends in an age nobody survives, term, deferred, endowment, increasing, decreasing, certain-and-life, with benefit functions and amounts; first and second moments and variances) equal the sums over the mortality supplied at the interest in force now; the values loaded in a select table's own A and a columns stand for its whole life insurances and annuities; and premiums, twins, variances and future losses worked out from values handed to it use that interest.",
 ["histories", "fault_sequences", "inputs"],
 "all loads of a consistent mortality as in C09 and C10 interleaved with changes of interest and priced questions inside the age range",
 "Tests price a few textbook contracts on one table loaded in one call.",
 ["lifetable", "sult", "insurance", "annuity", "premiums", "policyvalues"],
 [("prices from the filled l column", B+"lifetable.py:LifeTable.E_x, q_x"), ("term = whole - endowment * later whole", B+"insurance.py:Insurance.term_insurance, annuity.py:Annuity.temporary_annuity"), ("values at duration t", B+"policyvalues.py:PolicyValues.net_policy_value, gross_policy_value")],
 [("_table", "l,d,q,p columns by age", B+"lifetable.py"), ("Life.interest", "current interest assumption", B+"life.py")])

prop("C19", "The process's settings are neither changed nor consulted",
 "No call - importing, constructing, loading, asking, framing, plotting on a given axis, accepted, refused, aborted by a failing callback or interrupted anywhere - changes a process-wide setting (numpy error handling and random state, warning filters, pandas and matplotlib options, recursion limit, decimal context, locale, signal handlers, hooks, standard streams, working directory, environment, clocks, threads), and no answer depends on what the rest of the program has set them to, though a question may raise where numerical warnings were made errors.",
 ["histories", "fault_sequences", "configurations"],
 "all histories of calls on models of every class, aborted at any point, interleaved with changes of process-wide settings and jumps of the clock by the rest of the program",
 "Tests run under one set of settings, never look at them afterwards, and abort nothing.",
 ["actuarial", "recursion", "lifetable", "survival", "interest", "reserves"],
 [("scipy called with full_output instead of warnings", B+"actuarial.py:Actuarial.integral, solve"), ("display options kept on the trace class", B+"recursion.py:Recursion.blog_options"), ("drawing through the axis argument", B+"insurance.py:Insurance.Z_plot")])

prop("C20", "A discarded model leaves nothing behind",
 "Once a program lets go of a model and its views, they and the functions and contracts handed to them can be collected, whatever was asked, plotted, refused, aborted or interrupted; a view lives on and answers as before after the program lets go of its model; models made afterwards, even in the same memory, answer as in a fresh process; and a life repeated over and over does not make the library hold more and more.",
 ["histories", "fault_sequences"],
 "all sequences of models of every class made, questioned, plotted, aborted and dropped one after another in one process, views outliving their model or not",
 "Tests keep every model alive and their process ends at once.",
 ["life", "lifetable", "sult", "recursion", "mthly", "survival"],
 [("state on instances only", B+"life.py:Life.__init__, survival.py:Survival.set_survival"), ("views hold their model", B+"mthly.py:Mthly.__init__, extrarisk.py:ExtraRisk.__init__")])

prop("C21", "A view prices its payments over the table's mortality and interest as they stand",
 "An m-thly, uniform-deaths, Woolhouse or extra-risk view of a life table, built before, between or after the table's loads (in any split and order, interrupted or refused, as in C09) and changes of interest, gives at each moment the probabilities, pure endowments, insurances, annuities, second moments and variances that its definition gives for the mortality and interest the table holds then: sums over m-thly payments with deaths spread as the table spreads them (m-thly) or uniformly (uniform deaths, m=0 meaning payable at once or continuously), Woolhouse's two- or three-term formula, or the rates adjusted for the extra risk (annuities, and uniform-deaths and Woolhouse values, at a positive rate of interest).",
 ["histories", "fault_sequences", "inputs"],
 "all loads as in C09 interleaved with changes of interest, views built at any time, and questions inside the age range",
 "Tests build one view on one finished table and sample a few textbook values.",
 ["mthly", "udd", "woolhouse", "extrarisk", "lifetable"],
 [("views ask their life", B+"mthly.py:Mthly.p_m, q_m, A_x"), ("closed forms from annual values", B+"udd.py:UDD, woolhouse.py:Woolhouse"), ("adjusted rates", B+"extrarisk.py:ExtraRisk.p_x")],
 [("Mthly.life", "the model underneath, shared and mutable", B+"mthly.py"), ("_table", "l,d,q,p columns by age", B+"lifetable.py")])

prop("C22", "Continuous values and percentiles follow the mortality and interest in force",
 "However a life table or the standard ultimate table came to hold its mortality (any split, order, repetition, interruption or refusal of the loads, as in C09) and however interest was changed, its continuous insurances, annuities, premiums and policy values equal the integrals over the mortality supplied and the interest in force now; the present-value random variables Z, Y and L (discrete and continuous, L also at or past the end of a contract's term) at a time of death equal their definitions at that interest; their inverses give back the time of death; and their percentiles, given as a time, a value or a probability, are those of the survival function the table then defines (curtate insurances round the time of death down, annuities up). Percentiles are promised where the time falls inside the table, continuous increasing and decreasing annuities are left out.",
 ["histories", "fault_sequences", "inputs"],
 "all loads of a consistent mortality as in C09 interleaved with changes of interest and questions at ages, times and probabilities inside the table",
 "Tests sample a few percentiles and continuous values of parametric laws; the library reaches them by numerical integration and root finding whose convergence depends on the table and the age.",
 ["insurance", "annuity", "premiums", "policyvalues", "lifetable", "sult", "fractional", "actuarial"],
 [("integrals over fractional ages", B+"lifetable.py:LifeTable.integral, fractional.py:Fractional.f_r"), ("percentiles by root finding", B+"insurance.py:Insurance.Z_t, annuity.py:Annuity.Y_t, actuarial.py:Actuarial.solve"), ("random variables and inverses", B+"insurance.py:Insurance.Z_from_t, annuity.py:Annuity.Y_to_t, policyvalues.py:PolicyValues.L_from_t, L_to_t")],
 [("_table", "l,d,q,p columns by age", B+"lifetable.py"), ("Interest._i, _v, _d, _delta", "rate in force", B+"interest.py")])

prop("C23", "Work is bounded and does not grow with use",
 "Every question, load and change of assumptions finishes in a bounded amount of work, and what happened before (any number of rounds of the same questions, repeated loads and changes of assumptions, refused changes, calls cut short by failing functions, streams, interrupts or memory) does not make it longer: the n-th time it takes essentially no more steps than when first made on a fresh model in the same state, and never more and more.",
 ["histories", "fault_sequences"],
 "rounds of questions, repeated and refused loads and changes, and interrupted calls on models of every class and views on them",
 "Tests ask each question once; work that grows shows only after long use, and a search that does not end only for particular facts and tables.",
 ["recursion", "lifetable", "selectlife", "reserves", "interest", "survival", "mthly", "udd", "woolhouse"],
 [("searches bounded by depth", B+"recursion.py:Recursion"), ("loading iterates until nothing changes", B+"lifetable.py:LifeTable.fill_table, selectlife.py:SelectLife.fill_table"), ("assumptions replaced whole", B+"interest.py:Interest, survival.py:Survival.set_survival")],
 [("_table, _select, db", "the data kept, which repeated loads must not enlarge", B+"lifetable.py, selectlife.py, recursion.py")])

prop("C24", "A model answers from the survival law and interest it was last given",
 "A model given its survival as a function (lives, survival, density or force of mortality, any one of them or several of the same law) or as a parametric law (constant force, uniform, beta, Gompertz, Makeham), and its interest in any form, again and again, with refused, failing and interrupted attempts and failing questions in between, answers from the law and the rate it last accepted: its survival, density, force, fractional-age probabilities and expectations, pure endowments, discrete and continuous insurances and annuities with their second moments and variances, net and gross premiums, policy values, loss variances and present-value random variables with their inverses and percentiles equal the sums and integrals over that law at that rate, the same whichever form was given. Whole-life values are promised where nobody survives the oldest age, densities and forces had by differentiation where the law is smooth a year to both sides.",
 ["histories", "fault_sequences", "inputs"],
 "all sequences of survival laws in any combination of forms, interest in any form, refused, failing and interrupted attempts, and questions at ages and terms the law covers",
 "Tests give each law in one form to a new model and sample textbook values; the forms are derived from one another by differentiation and integration, so a form or rate left over from an earlier law answers plausibly.",
 ["survival", "lifetime", "fractional", "insurance", "annuity", "premiums", "policyvalues", "mortalitylaws", "constantforce", "interest", "actuarial"],
 [("missing forms derived from those given", B+"survival.py:Survival.set_survival"), ("shortcuts of the laws", B+"mortalitylaws.py, constantforce.py"), ("sums and integrals", B+"insurance.py:Insurance.A_x, annuity.py:Annuity.a_x, lifetime.py:Lifetime.e_x"), ("interest replaced whole", B+"life.py:Life.set_interest, interest.py:Interest"), ("inverses by search", B+"actuarial.py:Actuarial.solve, policyvalues.py:PolicyValues.L_to_t")],
 [("Survival.S, f, l, mu", "the law, each form given or derived", B+"survival.py"), ("Interest._i, _v, _d, _delta", "rate in force", B+"interest.py")])

NA = {}
def na(id, title, statement, files, mech, reason):
    prop(id, title, statement, ["inputs"], "all arguments in the documented domain",
         "Tests sample textbook values of an infinite argument domain.", files, mech)
    NA[id] = reason
PURE = "A pure function of its arguments: no schedule, clock, I/O, fault or history enters it, so there is nothing for a simulator to schedule or inject; deciding it would be plain input generation, not deterministic simulation. "
na("N01", "Interest conversions agree", "Effective, nominal, discount and force-of-interest forms of one rate convert into one another exactly, and annuities-certain and double-force formulas follow from them.", ["interest"], [("conversion formulas", B+"interest.py:Interest")], PURE + "(That a stated rate takes full effect in a history of changes is C01.)")
na("N02", "Survival forms agree", "S, f, l and mu derived from any one of them describe the same lifetime distribution.", ["survival"], [("derivations", B+"survival.py:Survival.set_survival")], PURE + "(That the forms last given answer, after any history of attempts, is C24.)")
na("N03", "Insurance and annuity identities", "Whole life, term, deferred, endowment, increasing and decreasing insurances and annuities satisfy their defining sums and the twin identities, with the right moments and variances.", ["insurance", "annuity"], [("defining sums", B+"insurance.py:Insurance.A_x, annuity.py:Annuity.a_x")], PURE)
na("N04", "Fractional-age assumptions", "Under UDD or constant force, fractional-age lookups interpolate the integer-age table as the assumption prescribes and agree with it at integers.", ["fractional"], [("interpolation", B+"fractional.py:Fractional")], PURE)
na("N05", "Mortality-law shortcuts equal the general formulas", "Closed-form answers of the constant force, uniform, beta, Makeham and Gompertz laws equal the general formulas applied to their survival functions.", ["mortalitylaws", "constantforce"], [("closed forms", B+"constantforce.py, mortalitylaws.py")], PURE + "(Their answers after a history of attempts are compared with the general formulas in C24.)")
na("N06", "Standard ultimate table reproduces the published values", "The built-in standard ultimate life table equals the published SOA FAM-L table to its printed digits.", ["sult"], [("Makeham law parameters", B+"sult.py:SULT.__init__")], PURE)
na("N07", "Premium and policy value equivalences", "Net and gross premiums satisfy the equivalence principle, and policy values by formula, by loss random variable and by difference of premiums agree.", ["premiums", "policyvalues"], [("formulas", B+"premiums.py, policyvalues.py")], PURE)
na("N08", "M-thly approximations agree in the limit", "UDD and Woolhouse m-thly values tend to the continuous value as m grows and equal the annual value at m=1.", ["mthly", "udd", "woolhouse"], [("formulas", B+"udd.py, woolhouse.py")], PURE)
na("N09", "Present-value random variables of parametric laws invert", "For the closed-form survival laws Z, Y and L from a time or probability and back are mutually inverse, and percentiles respect the survival function.", ["insurance", "annuity", "policyvalues"], [("inversion formulas", B+"insurance.py:Insurance.Z_from_t/Z_to_t")], PURE + "(On life tables and laws whose mortality and interest have a history, this is C22 and C24.)")
na("N10", "Probability helpers", "Portfolio percentiles, mixtures, Bernoulli and binomial moments and conditional variances equal their textbook definitions.", ["life"], [("static helpers", B+"life.py:Life")], PURE)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    with open(os.path.join(here, "properties.jsonl"), "w") as out:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            out.write(json.dumps(p) + "\n")
    print(len(P), "properties,", len(NA), "not applicable")
