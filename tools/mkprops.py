import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[min(i,len(files)-1)]} for i,m in enumerate(mech)]}
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":dict(a,observe_at=observe,hook_needed=None,**({"state":state} if state else {}))})
B="sympl/_core/base_components.py"
p("C01","Components see their inputs in the declared dims, units and collocation",
 "Whatever dimension order, units, dtype or memory layout the state uses, a component's computation receives each declared input (under its alias if it declares one) as an array whose axes are the declared dimensions in the declared order and whose values are the state's values expressed in the declared units. A declared dimension the quantity lacks is filled by repeating the quantity to the length that dimension has on the component's other inputs (length 1 if none has it), and '*' becomes a single axis collecting all unlisted dimensions in one order that is the same for every input of that call, so equal positions are collocated. The computation also receives the state's time, the same extraction offered as a stand-alone function behaves identically, and inputs are never merged: if the alias of one is the name of another, an invalid-property error is raised.",
 ["inputs","configurations","programs"],"Every component type, every valid property declaration (any number of inputs, any dims with or without one '*' in any position, alias, units) and every valid state for it (any dim order, any lengths including 0 and 1, any missing/extra-by-wildcard dims, any compatible units, any float/int dtype, non-contiguous or read-only memory).",
 "Tests fix one or two inputs with 1-3 dims, mostly in storage order and in the target units; the space of (declaration x state layout) pairs is unbounded and mis-collocation only shows with several partially overlapping inputs.",
 ["sympl/_core/get_np_arrays.py","sympl/_core/backend.py","sympl/_core/wildcard.py",B],["unit conversion then transpose/broadcast/flatten of each state quantity","wildcard name resolution across inputs"],["array passed to the component's computation","return value of the stand-alone extraction function"])
p("C02","Component outputs are labelled with the right dims, units and values",
 "Every array a component's computation returns comes back to the caller under the full quantity name, with the declared units, with exactly the declared dimensions in declared order ('*' replaced in place by the dimensions it stood for on the inputs of that same call), and with every value at the position that corresponds to where the computation put it. Outputs declared without dims use the dims of the input of the same name, and outputs may be keyed by their own alias or the alias of the input (a key that is the name of a declared output always means that one). A returned array whose number of axes or axis lengths do not fit the declared dimensions is rejected with an error and never silently reshaped.",
 ["inputs","configurations","programs"],"Every component type, every valid output declaration (with/without '*', alias, inherited dims, new dims), every valid state and every array the computation may return (right or wrong shape).",
 "Tests check a handful of fixed shapes; scrambling by a consistent-size reshape or a wrong wildcard order is invisible unless values are compared by label over many layouts.",
 ["sympl/_core/restore_dataarray.py","sympl/_core/wildcard.py","sympl/_core/backend.py",B],["alias resolution, shape check, wildcard expansion, wrapping into labelled arrays"],["dictionaries returned from component calls","return value of the stand-alone restore function"])
p("C03","Invalid states are rejected before any computation runs",
 "Calling a component with a state that lacks a declared input, has an input without units, has units that cannot be converted to the declared ones, has a dimension that neither the declaration nor a wildcard admits, has two inputs disagreeing on a dimension's length, or lacks the time, raises an error and the component's computation is not executed. All but the missing time are reported as an invalid-state error (missing inputs may also be a key error), and a state that has none of these faults is accepted.",
 ["inputs","configurations","fault_sequences"],"Every component type and valid declaration, every valid state, and every single fault (and combination) of the listed kinds injected into it, at every input position.",
 "Tests inject a few faults in the first or only input of a component; position, presence of wildcards, aliases and other inputs decide which checks run.",
 [B,"sympl/_core/wildcard.py","sympl/_core/backend.py"],["presence check of inputs","dimension and length checks while matching wildcards","unit conversion failure translation"],["exception type","count of computation executions"])
p("C04","Outputs a component omits or adds relative to its declaration are rejected",
 "If a component's computation does not return one of the tendencies, outputs or diagnostics it declares, or returns one that it does not declare, the call raises the missing-output or extra-output error and returns nothing. When the returned set matches the declaration (each by name or alias) the call succeeds and the caller gets exactly the declared names in each returned dictionary (plus tracers and requested tendency diagnostics).",
 ["programs","configurations"],"Every component type and declaration, every subset of declared outputs dropped and every undeclared name added, by name or by alias, in every returned dictionary.",
 "Tests drop or add one output with a one-quantity declaration.",
 [B],["missing/extra checks on tendencies, diagnostics and outputs with alias lookup"],["exception type","key sets of returned dictionaries"])
p("C05","Malformed property declarations are refused when a component is constructed",
 "Constructing a component whose property dictionaries are missing or not dictionaries, omit units, omit dims with no input of that name to inherit from, give one alias to two quantities, or declare an output or diagnostic with units inconvertible to the same-named input (for a tendency: to that input's units per second) raises an invalid-property error. Every declaration without such a fault is accepted, and a component used without having run the base-class initialisation is refused at call time.",
 ["programs","configurations"],"Every component type, every valid declaration and every fault of the listed kinds at any position in any of its dictionaries.",
 "Tests cover single-entry dictionaries; faults hidden behind other entries and over-rejection of unusual valid declarations are not sampled.",
 [B],["input/tendency/diagnostic/output checkers at construction","initialisation guard"],["exception at construction or call"])
p("C06","Calling components never alters the caller's state or the component's metadata",
 "Calling a component, composite, wrapper, stepper or monitor leaves the caller's state dictionary (keys, values, units, attributes, coordinates, dtype) and the object's declared properties exactly as they were, provided the component's own computation does not modify its arguments; the single exception is the documented filtering of the current state by the leapfrog stepper. Repeating a call on a history-free component with the same state gives the same result, however many other calls happened in between, and results returned earlier are not altered by later calls (except by the leapfrog filter).",
 ["inputs","histories","configurations"],"Every component/wrapper/composite/stepper/monitor type, every valid state and every sequence of calls, including computations that return their own input arrays or a cached array.",
 "Tests almost never re-inspect the input state, and aliasing bugs need a specific combination of unit match, dims match and in-place update plus a second call.",
 [B,"sympl/_core/wrappers.py","sympl/_core/composite.py","sympl/_core/util.py","sympl/_core/tendencystepper.py","sympl/_components/timesteppers.py","sympl/_components/basic.py"],["views handed to computations","in-place arithmetic on results","shared attribute dictionaries"],["deep snapshot of state and properties before/after each call"])
p("C07","Unit conversion is numerically right and unit predicates agree with it",
 "Converting a quantity to other units yields the same physical quantity (values transformed by the exact linear or offset relation), keeps dims, coordinates and other attributes, sets the new units, leaves the original untouched, and is refused with an error if the units are not convertible. Two unit strings are reported compatible exactly when conversion between them succeeds and the same exactly when conversion is the identity, and a string is reported a valid unit exactly when it parses, never by raising. Percent and degree signs, the empty string and the geographic degree units are understood.",
 ["inputs"],"All pairs of unit strings from a broad vocabulary with known factors and offsets (spellings, powers, products, quotients, %, degree sign, empty), arbitrary arrays, and arbitrary malformed strings.",
 "Tests sample a few unit pairs and never a malformed string or offset/percent combinations.",
 ["sympl/_core/units.py","sympl/_core/dataarray.py"],["registry with extra definitions and string preprocessing","conversion with attribute copying"],["return values and exceptions of conversion and predicates"])
p("C08","A composite behaves as the sum/union of its components",
 "Calling a composite calls each of its components exactly once with the caller's state (and timestep where the component takes one), and returns tendencies that are the unit-aware, label-aligned sum of the components' tendencies and diagnostics that are the union of theirs, independent of component order. It refuses components of the wrong kind and components that share a diagnostic, its declared properties describe exactly what it needs and returns, and it does not modify what the components returned.",
 ["inputs","programs","configurations"],"Every multiset of components (including nested composites, wrappers, duck-typed components, int/float dtypes, differing but compatible units, differing dim orders and missing dims), every state.",
 "Tests combine two mocked components with equal units and dims.",
 ["sympl/_core/composite.py","sympl/_core/util.py"],["sequential calls with accumulation","shared-key check","class check"],["calls observed at each component","returned dictionaries"])
p("C09","Combined property requirements satisfy every component or are refused",
 "The combined input (or tendency) requirements of several components name exactly the union of their quantities, including registered and component-specific tracers, each with units convertible to all the individual requirements. Reading dims without '*' as exactly those dimensions and dims with '*' as any set of dimensions that includes the listed ones, the combined dims stand for exactly the dimension sets that satisfy all the individual requirements; when there is none, or units are inconvertible, combining raises an invalid-property error, and whether it succeeds does not depend on the order of the components.",
 ["programs","configurations"],"All pairs of dims declarations over a small alphabet with and without '*', in any order, and random lists of components with overlapping quantities and units.",
 "Tests check about a dozen dims pairs; an asymmetric or over-permissive rule passes them.",
 ["sympl/_core/combine_properties.py","sympl/_core/composite.py","sympl/_core/tendencystepper.py"],["pairwise dims combination with wildcard","unit compatibility check"],["input_properties/tendency_properties of composites and steppers","stand-alone combination function"])
p("C10","Adams-Bashforth stepping follows its formula over any history",
 "An Adams-Bashforth stepper of order 1 to 4 advances each quantity that has a tendency by the textbook Adams-Bashforth combination of the tendencies of the most recent steps of this instance, using the lower-order formulas until enough steps were taken, with all unit conversions between state and tendencies accounted for. A step whose components raise contributes nothing to later steps, instances do not influence each other, and for orders above 1 a changed timestep raises a value error.",
 ["histories","fault_sequences","inputs","configurations"],"All orders, all sequences of steps (with any states, units of state and tendencies that may change between steps, timesteps from microseconds to days, several components), interleavings of several instances and component failures at any step.",
 "Tests run at most a few steps of one instance with scalar-like states in matching units.",
 ["sympl/_components/timesteppers.py","sympl/_core/tendencystepper.py","sympl/_core/composite.py"],["list of past tendencies, coefficients, startup order selection, timestep guard"],["new state and diagnostics returned by each step"],[{"name":"tendency history","meaning":"tendencies of the last order-1 steps"}])
p("C11","Leapfrog stepping with its time filter follows its formula over any history",
 "A leapfrog stepper takes a forward-Euler first step and thereafter advances each quantity with a tendency from the previous (filtered) values by twice the timestep, then shifts the current and new values by alpha and (alpha-1) times half the filter strength times the three-point curvature; the filtered current values appear in the caller's state and are what the next step starts from. A step whose components raise changes neither the caller's state nor later results, instances do not influence each other, and a changed timestep raises a value error.",
 ["histories","fault_sequences","inputs","configurations"],"All filter strengths and alpha values, all step sequences with any states, compatible units of state and tendencies and timesteps, interleavings of instances, component failures at any step, and callers that overwrite or reuse the arrays of earlier states.",
 "Tests run two or three steps with scalar-like states in matching units.",
 ["sympl/_components/timesteppers.py","sympl/_core/tendencystepper.py"],["stored previous state, filter, in-place replacement of the caller's quantities"],["new state, caller's state after each step"],[{"name":"previous state","meaning":"filtered state of the last step"}])
p("C12","SSP Runge-Kutta stepping follows its formula at every step",
 "A strong-stability-preserving Runge-Kutta stepper with 2 or 3 stages returns for each quantity with a tendency the Shu-Osher combination of forward-Euler stages, evaluating its components exactly once per stage on that stage's values, and the returned diagnostics are those of the first stage. The result depends only on the given state and timestep, not on earlier steps of this or other instances.",
 ["histories","inputs","configurations","fault_sequences"],"Both stage counts, all states, linear and nonlinear tendencies, compatible units, changing states between calls, failing components at any stage.",
 "Tests use constant tendencies or one scalar example, for which several wrong combinations agree.",
 ["sympl/_components/timesteppers.py","sympl/_core/state.py","sympl/_core/tendencystepper.py"],["stage combination by scaling and adding state dictionaries"],["states seen by components per stage","new state and diagnostics"])
p("C13","Steppers preserve what they do not step: other quantities, time, units, dims",
 "For every time stepper, the new state contains every quantity of the old state, quantities without a tendency (of any kind and dtype) unchanged, and the time unchanged; each stepped quantity keeps its dimensions, other attributes and the units it had in the old state, and its declared output units and dims are consistent with what is returned. Diagnostics are those computed by the components on the given state, and the caller's own arrays are not modified (for leapfrog: except for the replaced filtered quantities).",
 ["inputs","histories","configurations"],"All stepper types and options, all component sets, all states with extra quantities of any dtype/shape/attributes, tendencies with dims in any order or a subset of the state's, over several steps.",
 "Tests use states holding only the stepped quantity plus time.",
 ["sympl/_core/tendencystepper.py","sympl/_components/timesteppers.py","sympl/_core/state.py"],["copying untouched quantities","attribute retention in labelled arithmetic"],["returned new state","caller's state before/after"])
p("C14","Tendency diagnostics equal the actual change and stay per instance",
 "When asked to put tendencies in diagnostics, a component or stepper additionally returns, for every quantity it outputs or gives a tendency for, a diagnostic '<quantity>_tendency_from_<name>' whose value in its units is the returned tendency, or for steppers the change from old to new value divided by the timestep, and that diagnostic is listed in the declared diagnostics with convertible units and fitting dims. Turning the option on for one instance changes nothing for other instances, including of the same class, and alias keys and custom time units do not break it. A stepper whose tendency diagnostic would have the name of one that a component inside it gives refuses to step rather than replace it.",
 ["configurations","histories","inputs"],"All component kinds and steppers, any mixture of instances with the option on/off created in any order, aliases, custom time units, timesteps, states.",
 "Tests build one instance per class with a single quantity without alias.",
 [B,"sympl/_core/tendencystepper.py","sympl/_components/basic.py"],["insertion of extra diagnostic properties","first-order differencing"],["returned diagnostics","declared diagnostic properties per instance"])
p("C15","A time-differenced stepper returns exactly (new - old)/timestep",
 "Wrapping a stepper for time differencing yields, for each output of the stepper, a tendency equal to its new value minus the state's value divided by the timestep in seconds, expressed in the declared tendency units and label-aligned, along with the stepper's own diagnostics, whatever compatible units and dim order the state uses. The stepper is called once per call with the same state and timestep, declared properties match what is returned, and an output with no old value in the state is refused.",
 ["inputs","configurations"],"All wrapped steppers, output units (including dimensionless), states in any compatible units and dim order, timesteps from microseconds to days.",
 "Tests use one quantity in matching units and a 1 s or 5 s timestep.",
 ["sympl/_components/basic.py"],["difference with unit conversion of the old value","unit string construction"],["returned tendencies and declared properties"])
p("C16","A scaling wrapper scales exactly the named quantities, on every call",
 "A scaled component is called once per call with the named inputs multiplied by the factors given at construction (later changes of the caller's dictionaries have no effect) and all other state quantities unchanged, and its named outputs, tendencies and diagnostics are returned multiplied by their factors, all with units unchanged and everything not named untouched; this holds equally on the first and every later call, and neither the caller's state nor data owned or cached by the wrapped component is altered. Factors for names the component does not declare and non-component arguments are refused at construction, and a missing timestep is refused for components that need one.",
 ["inputs","histories","configurations"],"All component kinds (including nested wrappers, tracer-using components and components returning cached or input arrays), all factor dictionaries, states and call sequences.",
 "Tests call each wrapper once with a mock component that allocates new arrays.",
 ["sympl/_core/wrappers.py"],["building the scaled input state","multiplying results"],["state seen by the wrapped component","returned dictionaries over repeated calls"])
p("C17","An update-frequency wrapper recomputes exactly when due and else repeats",
 "A component wrapped for an update interval is executed on the first call and then exactly on those calls whose state time is at least the interval after the state time of the last successful execution; on all other calls it is not executed and the previous output is returned. Executions receive the caller's state and the timestep if the component takes one, a failing execution leaves the schedule and the previous output unchanged, and wrappers are independent of each other.",
 ["histories","schedules","fault_sequences","configurations"],"All component kinds, all intervals and all sequences of state times (irregular, repeated, backwards, different calendars or timedeltas) and failures at any call.",
 "Tests try a few regular sequences with one interval.",
 ["sympl/_core/wrappers.py"],["last-update time comparison and cached output"],["calls observed at the wrapped component, returned outputs"],[{"name":"last update time","meaning":"time of last execution"}])
p("C18","Tracers reach components and return complete, ordered, collocated",
 "A tracer-using component receives one array whose tracer axis is at the declared position and holds, in order, the component's own extra tracers followed by all other registered tracers in registration order, each in its registered units and laid out in the declared dims, collocated with the component's other inputs, with an empty tracer axis when there are none (given that the other inputs span every dimension the tracers have beyond the listed ones). What it returns in that array comes back as one quantity per tracer with the right values, dims and units (for tendencies multiplied by the tracer tendency time unit, s^-1 by default), under all component kinds and wrappers, and a composite or stepper lists the tracers known when it was built among its inputs. A stepper steps each tracer by its tendency from the first step at which it is registered.",
 ["inputs","histories","configurations","programs"],"All registration orders and times (before/after construction), extra tracers overlapping registered ones, any tracer axis position, '*' or explicit dims, any number of tracers including 0, state layouts and units.",
 "Tests use at most a few tracers, all in identical layout and units.",
 ["sympl/_core/tracers.py",B,"sympl/_core/wrappers.py"],["packing and unpacking along the tracer axis","unit multiplication"],["tracer array seen by the component","returned quantities"])
p("C19","Tracer registration is consistent, idempotent and all-or-nothing",
 "Registered tracers are reported once each, in first-registration order, with their units; registering again with the same units changes nothing and with different units is refused. A registration that conflicts with a tracer-using component which already outputs that quantity is refused and leaves the registry as it was, and constructing such a component when the conflict already exists is refused; returned views of the registry are copies.",
 ["histories","configurations"],"All sequences of registrations (new, repeated, conflicting) and component constructions.",
 "Tests do one or two registrations per test.",
 ["sympl/_core/tracers.py"],["module-level registry and list of packers"],["registry query functions after each operation"],[{"name":"tracer registry","meaning":"ordered names with units"}])
p("C20","Helper-allocated output arrays always fit the declaration",
 "The allocation helper given a component's output declaration and the arrays the component received returns zero-filled, mutually independent arrays, one per declared quantity, whose shapes are accepted on output for exactly that declaration (including '*', inherited dims, dtype requests, and the tracer array with one entry per distinct tracer). Inputs that disagree on a dimension's length are refused, and the given arrays are not modified.",
 ["inputs","configurations"],"All declarations and states of valid components, with or without tracers and extra tracers.",
 "Tests fix a handful of shapes.",
 ["sympl/_core/init_np_arrays.py"],["dimension length collection from received arrays"],["returned arrays; success of the full component call using them"])
p("C21","The constants library behaves as one consistent, resettable dictionary",
 "After any sequence of setting constants, choosing the condensible substance and resetting, reading a constant (or any of its alternative names) returns the value most recently set through any of its names since the last reset, converted to the requested units; phase-generic names follow the chosen condensible. Unknown names and inconvertible or invalid units are refused without changing anything, resetting restores exactly the documented defaults, and the printable listing always works and shows the current values.",
 ["histories","inputs"],"All interleavings of set/get/choose condensible/reset/list over the documented names, aliases and new names with any units.",
 "Tests perform one or two operations then reset.",
 ["sympl/_core/constants.py"],["alias table, default copy, conversion at read"],["get_constant, printable listing"],[{"name":"constants","meaning":"current values and alias table"}])
p("C22","A NetCDF monitor's file holds exactly what was stored, sorted per write",
 "After any sequence of stores and writes, the file contains for each stored time one record (states stored at the same time before a write are merged, the records of each write in increasing time order) and, per stored quantity (restricted to the names and after substitution of the aliases given at construction), the values as they were at the moment of storing with their dims and attributes, and the times convert back to the stored times. States whose quantities, dims or lengths differ from, or whose attributes contradict, what is already cached or written are refused with an error and add no records to the file. A write that is refused or fails drops nothing of what was stored: it may be repeated, and succeeds or is refused again with all of it.",
 ["histories","inputs","configurations","fault_sequences"],"All store/write sequences (out of order, repeated times, write-on-store, several monitors on one file, modification of the state after storing), names filters, aliases, time units, calendars, dims incl. scalars and dtypes.",
 "Tests store one or two states of two quantities in order.",
 ["sympl/_components/netcdf.py"],["cache keyed by time, sorted write, compatibility checks, time encoding"],["file re-read independently with the NetCDF library"],[{"name":"cache","meaning":"states awaiting a write"}])
p("C23","A restart file gives back exactly the last stored state",
 "Loading after storing returns a state with the same time (kind, calendar and value, to the microsecond) and the same quantities with identical values, dtypes, dims and attributes as the most recently stored state, whatever their names, units and shapes, through any number of store/load rounds and from a different process or monitor object. Loading does not change the file.",
 ["inputs","histories"],"All states with numeric quantities (0-d to 4-d, any attributes incl. time-like units, names equal to dimension names), times as datetimes of any calendar with whole seconds or time differences, and all store/load sequences.",
 "Tests store one or two float quantities and one datetime in 2013.",
 ["sympl/_components/netcdf.py"],["write through the NetCDF monitor, load and time decoding"],["loaded state"])
p("C24","Interrupting or failing a restart store never loses the previous restart",
 "If the process dies at any point while storing a restart, loading afterwards yields either the complete previous state or the complete new one. If a store fails with an error, the complete previous state (or the complete new one) remains loadable and a later store succeeds.",
 ["crash_points","fault_sequences","histories"],"Every crash point (each executed line and each library/OS call boundary) of a store with and without previous restart, and every injected failure of an I/O operation or invalid state.",
 "Tests never interrupt a store.",
 ["sympl/_components/netcdf.py"],["write to a temporary name then replace"],["loading from the restart path after the crash/fault"])
p("C25","A replacement state backend is used for every state access",
 "After a different backend is installed, components read dims, shapes and arrays and create results only through it, so a model whose state values are that backend's containers gives the same numbers, dims and units as the equivalent model with the default backend, in all component kinds. Installing something that is not a backend is refused without effect, the most recent backend is the one in use, and restoring the previous backend restores behaviour.",
 ["configurations","histories","programs"],"All component kinds and property declarations, all states, and any sequence of backend changes.",
 "Tests never run a full component under an alternative backend container.",
 ["sympl/_core/backend.py","sympl/_core/get_np_arrays.py","sympl/_core/restore_dataarray.py","sympl/_core/wildcard.py"],["global current backend consulted at use"],["log of backend method calls, results"])
p("C26","Duck-typed components are recognised by interface, subclasses by class",
 "An object that does not inherit from a component type is recognised as that type exactly when it has all of that type's attributes, none of the attributes specific to the other types, and a call signature that takes (or may omit) the timestep as that type does; having a name is optional to other types. Objects that inherit from a component type are recognised by inheritance alone, and each type is recognised as itself.",
 ["programs","configurations"],"All subsets of the interface attributes combined with all call signatures (no timestep, required, optional, absent call), and all inheritance shapes.",
 "Tests check a dozen hand-picked combinations.",
 [B],["metaclass instance check"],["isinstance results"])
p("C27","Calendar-aware datetimes are the requested instant in the requested calendar",
 "Requesting a datetime in any documented calendar name (in any letter case) returns an object holding exactly the given fields in that calendar, whose arithmetic follows that calendar's month lengths; dates that do not exist in it, time zones with non-default calendars and unknown calendar names are refused with an error. The default is an ordinary timezone-capable datetime.",
 ["inputs"],"All calendars and spellings, all field values over several centuries including month ends and leap days, valid or not.",
 "Tests check a few dates per calendar.",
 ["sympl/_core/time.py"],["dispatch on calendar name"],["returned object, date differences"])
p("C28","Array extraction and dimension restoration are exact inverses",
 "Extracting a numpy array from a labelled array for any requested dimension order (with '*' collecting the rest, and placeholder length-1 axes for absent x, y and z) keeps every value at its labelled position, and restoring the result against the original array reproduces its dims, shape, coordinates and values, with the requested attributes. Requests that drop a dimension or name an absent one, and restorations of the wrong size, are refused.",
 ["inputs"],"All arrays up to 4 dims of any lengths, dtypes and coordinates, and all requested orders with or without '*'.",
 "Tests fix about 30 layouts with equal or trivial values.",
 ["sympl/_core/util.py"],["transpose/reshape by direction names"],["returned arrays"])
p("C29","Prescribed and relaxation components return exactly their defined values",
 "Components prescribing constant tendencies or diagnostics return exactly the given values, dims and units on every call whatever the state and however earlier results were used by wrappers, composites or steppers. A relaxation component returns (equilibrium - value)/timescale at every point, label-aligned, for any compatible units of value, equilibrium and timescale, with declared properties that match.",
 ["inputs","histories"],"All prescribed dictionaries, states, units, dims and call sequences, alone or inside composites, wrappers and steppers.",
 "Tests call these once, stand-alone, in matching units.",
 ["sympl/_components/basic.py"],["stored arrays returned as outputs","relaxation formula"],["returned tendencies/diagnostics over repeated use"])
p("C30","Monitor composites and plot monitors deliver every state, isolated",
 "Storing to a monitor composite passes the state to each monitor exactly once in order and refuses non-monitors at construction; a plotting monitor calls its function exactly once per store with a figure and a full copy of the state, so whatever the function does to that copy never affects the caller's state or other monitors.",
 ["programs","histories"],"All lists of monitors (nested composites included), all states and store sequences, plotting functions that modify everything they are given.",
 "Tests use one or two mocks and one state.",
 ["sympl/_core/composite.py","sympl/_components/plot.py"],["sequential store","deep copy of the state before plotting"],["states received by monitors and plot functions"])
p("C31","Printing any object of the framework works and changes nothing",
 "str, repr and string formatting of every component, composite, wrapper, stepper and monitor give text that names its class and, for components, composites and steppers, the quantities or components they declare. This holds at any time (before use, between steps, after a failed call, inside its own constructor) and with attributes that refer back to the object or hold arrays or odd text; printing twice gives the same text, and printing never changes declarations, results or the course of a time series.",
 ["inputs","histories","programs"],"All kinds of objects, declarations, user attributes including reference cycles, and points of a history at which to print.",
 "Tests print a few freshly built objects and rarely look at the text.",
 [B,"sympl/_core/tendencystepper.py","sympl/_core/composite.py"],["guarded recursive repr","str of the declared properties"],["text of str/repr","declarations and results after printing"])
p("C32","Small public helpers keep their documented contracts",
 "Adding to or subtracting from a sympl DataArray gives what plain labelled arithmetic gives and keeps exactly the left operand's attributes, independent of it. The aliases of a list of components are all those declared anywhere in them, with input, output, diagnostic and tendency declarations taking precedence in that order. Checking two dictionaries for shared keys raises exactly when they share one and names them. All public names can be imported, also with *, and the jit decorator in all its forms gives a function with the same results.",
 ["inputs","configurations"],"All operands, lists of components and declarations, pairs of dictionaries, and public names.",
 "Tests try each helper on one or two inputs and most not at all.",
 ["sympl/_core/dataarray.py","sympl/_core/util.py","sympl/__init__.py"],["operators overridden to keep attributes","alias collection from lowest to highest priority","intersection of keys","list of public names"],["returned values","exceptions","imported names"])
p("C33","Copies of components, composites and steppers are independent and equal",
 "copy.deepcopy and pickling work for components (user-written ones included, where their own data allows it), wrappers, composites and steppers at any time, before use or in the middle of a run. The copy declares the same and, from the calls it gets, goes on exactly as an identically built object with the same history would (kept tendencies, cached outputs, earlier states and component memory included), while calls of the copy never influence the original nor the other way round. Quantities are copied with their values, dims, units and other attributes.",
 ["histories","configurations","schedules"],"All kinds of objects and nestings of them, all points of a history at which to copy, copies of copies, and all interleavings of later calls of copy and original.",
 "Tests never copy or pickle an object.",
 ["sympl/_core/wrappers.py","sympl/_components/timesteppers.py","sympl/_components/basic.py","sympl/_core/base_components.py"],["attribute delegation of wrappers","state kept between calls"],["results of copy and original against objects never copied"])
p("C34","A model run as the documentation writes it is consistent from end to end",
 "A main loop of diagnostic components, time steppers (given components one by one or as a list) and implicit steppers, which updates the state with the diagnostics, passes it to monitors and goes on with the returned state at a later time, gives at every step exactly what it would give if every quantity passed between the objects were copied. States that the caller keeps are not changed by later steps, the monitor's file holds what the run went through, and a run continued from a restart file with pickled or deep-copied objects goes on exactly as the uninterrupted one.",
 ["histories","programs","configurations"],"All combinations of components, wrappers, composites and steppers in such a loop, all initial states and calendars, all points of interruption.",
 "Tests call each object on its own for one or a few steps, and never in a loop with others.",
 ["sympl/_components/timesteppers.py","sympl/_core/state.py","sympl/_core/composite.py","sympl/_components/netcdf.py"],["arrays passed on between old state, new state, diagnostics and kept history"],["states, next states, files and restarted runs against a run with copies"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
