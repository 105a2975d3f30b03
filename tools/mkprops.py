import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
F="bcause/factors/"; V="bcause/factors/values/"; M="bcause/models/"; I="bcause/inference/"; L="bcause/learning/"
p("C01","Factor algebra is exact pointwise arithmetic on labelled assignments",
 "For every pair of discrete factors whose shared variables have the same set of states, the product, sum, difference and quotient (with 0/0 = 0), the combination with a scalar, the restriction to an observation (one state or a list of states per variable), the sum- and max-marginalisation and the renaming of variables yield, at every assignment of labels, the value that arithmetic on the operands prescribes. The result does not depend on the order in which the operands list their variables or the states of a variable, and its domain is exactly the union of (respectively what remains of) the operand domains. Chains of such operations of any length stay exact up to floating-point rounding.",
 ["inputs","histories"],"all factors (cardinalities incl. 1, any label type, zero and negative entries, any variable and state order), all sequences of operations over them",
 "tests/test_multinomial.py checks a handful of two-variable factors with one fixed variable order; the operation x order x cardinality x observation space is unbounded",
 [F+"mulitnomial.py",F+"factor.py",V+"numpyops.py",V+"operations.py",V+"listops.py",V+"treedictops.py","bcause/util/domainutils.py"],
 [("operand alignment","NumpyStoreOperations._generic_combine/_extend_domain/_reorder"),("restriction","NumpyStoreOperations.restrict"),("marginalisation","marginalize / maxmarginalize of each operation set")],["MultinomialFactor.*","get_value"])
p("C02","All value-storage backends and all views of a factor are interchangeable",
 "A factor created with any of the registered storage backends (numpy, numpy1d, list, treedict), or under any default backend, denotes the same function: every operation that a backend supports gives the same domain, the same left/right variables and the same value at every assignment as every other backend, and the result keeps the operands' backend. All views of one factor (values/values_list, values_dict, values_array in any variable order, get_value with irrelevant extra observations, prob, log_prob, is_degenerate, copies of the store) describe that same function. Inference on a model gives the same answers whichever backend its factors use.",
 ["inputs","configurations"],"all factors and operation sequences, x the four backends, x the default-backend setting",
 "the tests compare backends for a few operations on one or two factors; equivalence must hold for every operation, shape, label type and sequence",
 [V+"store.py",V+"numpystore.py",V+"liststore.py",V+"treedictstore.py",V+"numpyops.py",V+"listops.py",V+"treedictops.py",V+"operations.py",F+"factor.py","bcause/util/treesutil.py"],
 [("stores",V),("views","DiscreteFactor.values*/DiscreteStore.values_*"),("default","DataStore.set_default")],["values","values_dict","values_array","get_value"])
p("C03","Operations never modify their inputs",
 "No factor operation, model transformation, query, learning run, sampling, conversion or file writing changes any observable aspect of the objects handed to it: factors keep their domain, roles and values, models keep their graph, factors and endogenous variables, graphs keep nodes and edges, datasets keep their columns, dtypes and cells, and lists or dictionaries given as targets, evidence, interventions, state lists or model lists keep their contents. Factors, models and graphs returned earlier are likewise not altered by later calls.",
 ["histories","inputs"],"all histories of API calls; the state of every earlier object is compared before and after each call",
 "aliasing shows up only in particular multi-step sequences; the tests hardly ever look at an operand after an operation",
 [F+"mulitnomial.py",V+"numpyops.py",M+"pgmodel.py",M+"cmodel.py",M+"transform/simplification.py","bcause/util/graphutils.py",L+"parameter/expectation_maximization.py",L+"parameter/gradient.py",I+"causal/multi.py",F+"deterministic.py"],
 [("copies","restrict().copy(), builder calls, graph copies"),("data preparation","_process_data")],["projections of all live objects"])
p("C04","Left/right (conditional) roles of factor variables are tracked correctly",
 "Every factor partitions its variables into left and right ones, as declared at construction; contradictory declarations are rejected. Products, sums and differences have on the right exactly the variables that are on the left of no operand, quotients have on the right the dividend's right variables plus all the divisor's variables, and restriction, marginalisation and renaming keep the role of each surviving variable. The answer to a query has its targets on the left and its conditioning variables on the right, and names, left/right domains and builders derived from the roles agree with them.",
 ["inputs","histories"],"all factors with any declared roles and all operation sequences and queries",
 "roles matter only in later steps (model checks, dropping factors in elimination, sampling), the tests assert them for few single operations",
 [F+"factor.py",F+"mulitnomial.py",F+"deterministic.py",I+"probabilistic/probabilistic.py",I+"probabilistic/elimination.py"],
 [("role assignment","ConditionalFactor.set_variables; new_right_vars in each operation")],["left_vars","right_vars","left_domain","right_domain","name"])
p("C05","Probabilistic queries return the exact posterior",
 "For every Bayesian network or structural causal model, every set of target variables, every evidence of positive probability and every conditioning set, a variable-elimination query returns the conditional distribution obtained from the full joint: one non-negative entry per assignment of targets (and conditioning variables) equal to the exact ratio, normalised, over exactly those variables. The answer is the same for every elimination heuristic, including user-supplied ones, for targets given as a name, list or set, and for any order in which factors list variables and states.",
 ["inputs","configurations"],"all DAGs, CPTs (with zeros), targets, evidence, conditioning sets, heuristics and elimination orders",
 "tests query three or four fixed networks and compare rounded values; correctness depends on the interplay of graph shape, evidence position and elimination order",
 [I+"probabilistic/elimination.py",I+"probabilistic/probabilistic.py",M+"transform/simplification.py",I+"ordering.py"],
 [("elimination loop","VariableElimination.run"),("conditioning","ProbabilisticInference.query")],["VariableElimination.query"])
p("C06","Model reduction for a query never changes the query's answer",
 "For every model, target and evidence, the reduced model used for inference yields the same posterior as the full model, contains all targets and only nodes of the original model, and drops every barren node (no target or evidence among its descendants or itself). The reduced factors are those of the original restricted to the evidence on their parents, and the reduced graph is the original without the dropped nodes and without the arcs leaving evidence nodes. The barren-removal and disconnected-node helpers return exactly the sets given by their graph definitions.",
 ["inputs"],"all DAGs x target sets x evidence sets",
 "the tests exercise reduction only through a few queries on small networks; an over-pruned node changes answers only for particular graph/evidence combinations",
 [M+"transform/simplification.py","bcause/util/graphutils.py"],
 [("pruning","minimalize, barren_nodes, disconnected_nodes, remove_outgoing_edges")],["minimalize","inference_model"])
p("C07","Models accept exactly the well-formed factors and reject others atomically",
 "A model can be built only on a directed acyclic graph, and a factor can be attached to a variable iff its left variable is that variable, its right variables are the variable's parents and its state sets agree with the states already known for those variables (for endogenous variables of a structural causal model it must moreover be deterministic or degenerate); everything else raises an error. A rejected assignment leaves the model exactly as it was, an accepted one makes the model return that factor and its domain, so that every model reachable by such calls is a proper factorisation over its graph.",
 ["histories","inputs"],"all sequences of construction and factor-assignment calls, well-formed or malformed, in any order",
 "tests contain a few valid constructions and one or two rejections; what must hold is the invariant over every history of accepted and rejected calls",
 [M+"pgmodel.py",M+"bnet.py",M+"cmodel.py",F+"factor.py",F+"mulitnomial.py"],
 [("checks","PGModel.set_factor, StructuralCausalModel.set_factor, DiscreteDAGModel._initialize/_set_factors")],["set_factor","factors","domains"])
p("C08","Model transformations preserve the distribution they should",
 "Copying a model, renaming its variables (completely or partially), converting between structural causal model, multinomial form, Bayesian network and pgmpy representation, and taking a submodel on an ancestrally closed set of nodes all give a model whose graph is the correspondingly transformed graph and whose joint distribution over corresponding variables is that of the original. The split into endogenous and exogenous variables is carried over by every transformation between structural causal models, and the transformed model answers every query like the original.",
 ["inputs","histories"],"all models and compositions of transformations",
 "tests apply single transformations to single models and look at shapes or a few values",
 [M+"pgmodel.py",M+"cmodel.py",M+"bnet.py",M+"transform/conversion.py","bcause/conversion/pgmpy.py",F+"factor.py",F+"deterministic.py"],
 [("rebuild","builder, rename_vars, copy, submodel, to_bnet, to_multinomial"),("pgmpy","toPgmpyBNet/toBCauseBNet")],["factors","graph","endogenous"])
p("C09","Interventions implement the do-operator",
 "Intervening on any set of variables of a structural causal model returns a model in which exactly the arcs into the intervened variables are removed, each intervened variable is constantly equal to the assigned state, and every other factor, the other arcs and the endogenous/exogenous split are unchanged; successive interventions compose. A causal query equals the conditional distribution of the targets given the evidence in the distribution obtained by replacing the intervened equations by constants (truncated factorisation).",
 ["inputs","histories"],"all structural causal models, intervention sets and values (including falsy states), targets and post-intervention evidence, and sequences of interventions",
 "tests run a few causal queries on two or three models",
 [M+"cmodel.py","bcause/util/graphutils.py",F+"mulitnomial.py",F+"deterministic.py",I+"causal/causal.py",I+"causal/elimination.py"],
 [("graph surgery","StructuralCausalModel.intervention, remove_ingoing_edges, constant"),("query","CausalInference.compile/_preprocess")],["intervention","causal_query"])
p("C10","Counterfactual queries equal abduction-action-prediction",
 "For every structural causal model, a counterfactual query over one or several hypothetical worlds returns the probability obtained by weighting every exogenous configuration with its posterior given the factual evidence and evaluating the modified equations of each world on it, the exogenous variables being shared by all worlds and the factual one. The probabilities of necessity, of sufficiency and of necessity-and-sufficiency are the corresponding counterfactual probabilities for the true and false states of cause and effect (identified automatically or given by the user).",
 ["inputs"],"all structural causal models (incl. confounded ones), evidence, interventions per world, number of worlds, targets per world, and state conventions",
 "tests compare a few values on fixed small models",
 [I+"causal/causal.py",I+"causal/elimination.py",M+"transform/combination.py",M+"cmodel.py","bcause/util/domainutils.py"],
 [("twin network","CausalInference._preprocess, fusion_roots, rename_vars"),("PN/PS/PNS","prob_necessity, prob_sufficiency, prob_necessity_sufficiency, identify_true_false")],["counterfactual_query","prob_*"])
p("C11","C-components and the Q-decomposition factorise the observational distribution",
 "The c-components of a causal model are the connected components of the graph that links each exogenous variable to its children: they partition all variables, and the endogenous and exogenous parts and the component of a given variable agree with them. The Q-graph is acyclic and the conditional distributions attached to its nodes multiply to exactly the distribution of the endogenous variables implied by the model (or, when data are given, are the empirical conditionals of the data). Hence the log-likelihood of complete endogenous data is the sum of the logs of their model probabilities, and the maximum log-likelihood is that of the empirical Q-factors; with selected variables both sum over the factors of those variables only.",
 ["inputs"],"all structural causal models (Markovian, semi-Markovian, non-quasi-Markovian) and datasets",
 "tests check one confounded model; whether the decomposition is a proper factorisation depends on the graph",
 [M+"info.py",M+"cmodel.py",I+"probabilistic/datainference.py"],
 [("components","exo_graph, ccomponents, get_ccomponent"),("Q factors","get_qgraph, get_qfactors, get_qbnet, log_likelihood, max_log_likelihood")],["ccomponents","qgraph","get_qbnet","log_likelihood"])
p("C12","Expectation-maximisation performs exact EM updates",
 "For a Bayesian network or structural causal model, any set of trainable variables and any dataset possible under the model (variables may be absent altogether or missing in some rows only), each EM step replaces the distribution of every trainable variable by its exact expected-count estimate under the current model and the data (each row counted as often as it occurs, with what it records), so that the likelihood of the data never decreases from one recorded model to the next; parent configurations that the data exclude keep their distribution. All non-trainable factors, the graph, the data and the prior model stay untouched and every learned factor is a valid distribution. A run starts from the prior model whatever happened before on the same learner, records every intermediate model in order starting with the prior, and performs at most the requested number of steps.",
 ["inputs","histories"],"all structural causal models and Bayesian networks, datasets (duplicates, missing cells, unseen states, any row order), trainable sets, and sequences of initialise/step/run calls",
 "tests fix one model and compare learnt bounds to stored numbers; exactness and monotonicity must hold at every step for every model and dataset",
 [L+"parameter/expectation_maximization.py",L+"parameter/parameter.py","bcause/util/datadeps.py"],
 [("E step","_expectation, _get_obs_counts, DataDepAnalysis.get_minimal_obs_blanket"),("M step","_maximization"),("history","_update_model, model_evolution, run")],["model","model_evolution"])
p("C13","Multi-model inference returns the exact envelope of the current models",
 "At every point of any history of setting, adding, compiling, switching the result type and querying, a causal, counterfactual, necessity, sufficiency or necessity-and-sufficiency query on a set of models returns, per assignment, the minimum and maximum of the answers of exactly the models currently held (or the list of their answers in model order when intervals are switched off). Interval factors built from precise ones have those bounds, keep domain and roles, and restrict consistently.",
 ["histories","inputs"],"all histories over set_models/add_models/compile/query/prob_* /set_interval_result and all model sets",
 "stale-compilation and aliasing problems need particular call sequences; tests do one compile and one query",
 [I+"causal/multi.py",F+"imprecise.py"],
 [("session state","set_models, add_models, compile, _compiled"),("envelope","_process_output, IntervalProbFactor.from_precise")],["CausalMultiInference","EMCC","GDCC","IntervalProbFactor"])
p("C14","Model aggregation yields the requested models whatever the schedule",
 "After asking an aggregator for n models (repeatedly, sequentially or in parallel) it holds exactly the models of all requests so far, in request order, each of them the final model of the learning object stored at the same position, each learnt from the same data and with equations equal to those of the given model. This holds for every completion order of parallel runs, and neither the given model nor the data are changed by them.",
 ["schedules","histories"],"all interleavings of parallel learning runs, all sequences of generate/run/reset requests, both learners",
 "the tests run the aggregator sequentially or observe one uncontrolled schedule",
 [L+"aggregator/aggregator.py",I+"causal/multi.py"],
 [("collection","ModelAggregator.generate/_single_generate/merge/reset")],["models","learn_objects"])
p("C15","Saving and reading a model back preserves it",
 "Writing any representable model to bif, xmlbif or uai and reading it back gives a model with the same variables, arcs and conditional probabilities (equations, for structural causal models in uai), up to the documented naming of the format (uai: positional names and integer states) and the printed precision. This includes isolated variables, variables with several parents of different cardinalities, very small probabilities, ten or more variables, custom variable orders and every label the format can represent. The uai files themselves follow the format (number of variables, cardinalities, number of factors, scopes with the variable after its parents, tables with the last variable of the scope fastest, equations as positions of states), so that another program reads the same model from them, a file from another program is read as the model it denotes whatever the numbering of its variables and the order of the parents in its scopes, and an incomplete file is refused.",
 ["inputs","configurations"],"all models x formats x writer/reader options",
 "tests read fixed files and round-trip one or two binary models",
 ["bcause/readwrite/bnread.py","bcause/readwrite/bnwrite.py","bcause/readwrite/scmread.py","bcause/readwrite/scmwrite.py","bcause/conversion/pgmpy.py",M+"pgmodel.py"],
 [("uai","to_uai/from_uai"),("bif","toTabularCPT/toMultinomialFactor")],["save","read"])
p("C16","Sampling follows the model",
 "A sample of n instances has exactly n rows and one column per variable (endogenous sampling: exactly the endogenous ones), every row has positive probability under the model and satisfies every structural equation, and the joint frequencies converge to the model's distribution. Conditional sampling uses, for each observation, the distribution given that very observation and returns the answers in the order of the observations; factor sampling returns labels of the left variables. The requested representation (table or list of records) only changes the form.",
 ["inputs"],"all models, sample sizes and representations",
 "tests check shapes or nothing; support and frequencies must hold for every model",
 [M+"sampling.py",M+"pgmodel.py",M+"cmodel.py",F+"mulitnomial.py"],
 [("ancestral sampling","forward_sampling"),("factor sampling","sample, sample_conditional, _sample")],["sample","sampleEndogenous"])
p("C17","Data-based inference and counts are the empirical frequencies",
 "Counting a dataset over any domain gives, for each assignment, the number of rows (or the relative frequency) equal to it in the selected columns, counting missing cells under their own state, and unseen assignments as zero. A data query returns the relative frequencies of the targets among the rows that agree with the evidence, and with conditioning variables the empirical conditional distribution. Extra columns, row order, duplicate rows and column order are irrelevant.",
 ["inputs"],"all datasets, domains, targets, evidence and conditioning sets",
 "tests do not cover missing values, unseen states or reordered columns",
 ["bcause/util/datautils.py",I+"probabilistic/datainference.py",I+"probabilistic/probabilistic.py"],
 [("counting","to_counts, filter_data"),("query","LaplaceInference.run/_preprocess")],["to_counts","LaplaceInference.query"])
p("C18","Structural equations are total functions, faithfully represented",
 "A deterministic factor maps every assignment of its right variables to exactly the declared state of its left variable; its multinomial form is 1 exactly there and 0 elsewhere, and converting a degenerate conditional back to a deterministic factor recovers the function. Building one from a table of rows gives that table's function whatever the row and column order, and a constant factor is the constant. The canonical specification enumerates, through the states of the exogenous variable, each function from the endogenous parents to the child exactly once.",
 ["inputs"],"all deterministic factors (any variable order, label types, number of parents) and canonical specifications",
 "tests check single examples with one parent",
 [F+"deterministic.py",F+"mulitnomial.py","bcause/util/domainutils.py"],
 [("conversion","to_multinomial, to_deterministic, eval, from_data_frame, constant"),("canonical","canonical_deterministic, canonical_multinomial")],["get_value","eval","to_multinomial"])
p("C19","Elimination heuristics return valid greedy orderings",
 "For every DAG and every set of variables to remove, each built-in heuristic returns an ordering that contains each of those variables exactly once and nothing else. At every position the variable chosen has, in the current interaction graph (moral graph with earlier choices eliminated and their neighbours connected), minimal cost for that heuristic: number of neighbours, number of fill-in arcs, or product of the state counts of the variable and its neighbours. The graph handed in is not changed.",
 ["inputs"],"all DAGs, removal sets and variable sizes",
 "tests use the heuristics only implicitly",
 [I+"ordering.py"],
 [("greedy loop","_get_elim_ordering, cost_functions, fillin_arcs")],["min_fill_heuristic","min_size_heuristic","min_weight_heuristic"])
p("C20","Gradient-based learning returns valid models that do not lose likelihood",
 "For every quasi-Markovian structural causal model and complete endogenous dataset, the gradient learner returns a model with the same graph, states and equations in which every trained exogenous variable has a probability distribution (entries in [0,1] summing to one) and the likelihood of the data is not lower than under the starting model, up to the solver tolerance. Run without an iteration limit, the learnt distributions maximise the likelihood of the data (an exact EM step leaves them where they are, up to the solver tolerance): its objective is the exact negative log-likelihood contribution of the variable. Untrained distributions are unchanged, non-exogenous or observed trainable variables are rejected.",
 ["inputs"],"all quasi-Markovian models, datasets, starting distributions, tolerances and iteration limits",
 "tests compare bounds on one model",
 [L+"parameter/gradient.py",L+"parameter/parameter.py"],
 [("objective","_compute_N_and_P, negative_log_likelihood"),("optimisation","fitPMF, _updated_factor")],["GradientLikelihood.run","model"])
p("C21","Inference engines are history independent",
 "The answer of any inference object (variable elimination, causal, data-based) depends only on its model and the current query: repeating a query, interleaving different queries, compiling before running, running twice, or a query that failed with an error in between never changes later answers, and several engines on one model do not influence each other. Running before compiling and ill-formed queries (repeated targets, overlapping target, evidence or conditioning, unknown variables) are rejected with an error rather than answered.",
 ["histories"],"all histories of compile/run/query calls, valid and invalid, on one or several engines",
 "each test uses a fresh engine for one query",
 [I+"probabilistic/probabilistic.py",I+"probabilistic/elimination.py",I+"probabilistic/datainference.py",I+"causal/causal.py"],
 [("engine state","_target, _evidence, _inference_model, _compiled, _do, _counterfactual")],["compile","run","query"])
p("C22","Graph queries agree with the graph",
 "For every DAG, parents, children, Markov blankets (with hidden variables: the nodes d-connected to the variable given all other observed ones), d-separated and d-connected nodes, relevant variables, endogenous and exogenous parents and children and the endogenous subgraph are exactly the sets given by their graph-theoretic definitions. The textual form of a DAG and its parser are inverse to each other for every graph (isolated nodes and single nodes included), models built from either are the same, and the edge- and node-removal helpers return a graph differing in exactly the requested elements.",
 ["inputs"],"all DAGs, nodes and node sets",
 "tests check single graphs",
 ["bcause/util/graphutils.py",M+"pgmodel.py",M+"cmodel.py","bcause/util/datadeps.py"],
 [("helpers","graphutils, get_parents, get_children, markov_blanket, get_dag_str")],["graphutils.*"])
p("C23","Random generators produce valid and reproducible objects",
 "Every randomly generated factor, equation or model has exactly the requested domain and roles, non-negative entries that sum to one over the left variables for each assignment of the right ones (equations: exactly one state per parent assignment; strictly positive entries when zeros are disallowed), and randomising chosen variables of a model changes only their factors, in a copy unless asked to work in place. Seeding makes random generation, sampling and learning repeat exactly: what an action draws depends on the seed and on the actions since the seeding only, whatever was done before, and is the same in another process.",
 ["inputs","histories"],"all domains, role assignments, models, variable sets and seeds, all interleavings of seedings and random actions, all processes",
 "tests only use the generators to make inputs",
 [F+"mulitnomial.py",M+"bnet.py",M+"cmodel.py","bcause/util/randomUtil.py","bcause/util/arrayutils.py","bcause/util/domainutils.py"],
 [("generators","random_multinomial, uniform_multinomial, random_deterministic, randomize_factors, fill_random_*"),("seeding","randomUtil.seed")],["values","factors"])
p("C24","Dependency analysis of a dataset keeps what each row tells about a variable",
 "For every graph, dataset (with missing cells) and variable, the minimal observations reported for the variable contain, for each row in which it is hidden, exactly the restriction of the row to the recorded variables that are d-connected to it given the other recorded ones, each distinct restriction exactly once; a row that records the variable is represented by an observation that contains its value. Hence the posterior of the variable given the reported observation equals its posterior given the full row, for every parametrisation of the graph. The variables reported as relevant for the expectation of a variable are the variable and its parents, and those relevant for its posterior are the ones d-connected to it given the evidence. The analysis modifies neither data nor graph and answers the same when asked again.",
 ["inputs"],"all DAGs, datasets with missing cells and duplicate rows, and target variables",
 "no test covers the analysis by itself; whether a restriction loses information depends on the graph and on the pattern of missing cells of every row",
 ["bcause/util/datadeps.py","bcause/util/graphutils.py"],
 [("minimal observations","DataDepAnalysis.get_minimal_obs_blanket, dcon_nodes"),("relevant variables","expectation_relevant_vars, posterior_relevant_vars")],["DataDepAnalysis"])
p("C25","Domain utilities enumerate and locate joint assignments consistently",
 "For every domain (any variables, states and declared order), the state and assignment enumerations list each joint assignment exactly once, in row-major order (the last variable changes fastest), labelled and numbered alike; strides, coordinates and index lists locate assignments in that order: the index list of an observation holds exactly the positions of the assignments that agree with it, ascending, and observed variables outside the domain are ignored. Restricted, numeric and sub-domains have exactly the requested variables and states in the requested order, the domain of a variable and its parents covers the parents and then the variable, created domains have the requested sizes, and random assignments are members of the domain, with exactly one for every configuration of the variables to iterate. Power sets contain every subset once, changing the shape order is the exact permutation from first-index-fastest to last-index-fastest listings, and normalising an array divides every entry by the sum over the given axes. No argument is modified.",
 ["inputs"],"all domains, observations, sets of variables, DAGs and arrays",
 "tests use these functions only to build inputs; every list-valued view, backend and generator of the library rests on them",
 ["bcause/util/domainutils.py","bcause/util/arrayutils.py"],
 [("enumeration","state_space, assingment_space, numeric_*, random_assignment"),("location","steps, index_iterator, values_to_coord"),("arrays","normalize_array, powerset, change_shape_order")],["domainutils.*","arrayutils.*"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
