"""writes properties.jsonl and MANIFEST.json from one table (python3 tools/mkdocs.py)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "machup/"
# id, title, statement, over, quantifier text, why tests can't, files, mechanisms, observe_at, check note
P = []


def prop(i, title, st, over, q, why, files, mech, at, note):
    P.append(dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=[M + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[at]),
                  note=note))


IN, HI, CF, SC, FS = "inputs", "histories", "configurations", "schedules", "fault_sequences"

prop("C01", "Wing geometry input becomes exactly the described lifting surfaces",
     "Every wing (either side or both, connected or free, with span, sweep, dihedral, mounting angle, washout, taper, y-offset and grid) is discretised into sections whose control points, corner points, chords, areas, twist and unit vectors are those of the described planform with cosine (or linear) spacing, left wings mirroring right ones. "
     "The reference area is the planform area of the main wings only, and reference lengths that are not given are derived from the widest wing and that area.",
     [IN, CF], "every airplane description with 1..n wings, all sides, connections and grid sizes",
     "tests look at two fixed wings and a few getters", ["llgrid.py", "geometry.py", "MU.py"],
     [("section geometry", "llgrid.py: position, chord, area and unit vector computation per segment"), ("wing segment end points", "geometry.py: wing segments and connections"), ("default reference lengths", "MU.py: MachUp constructor")],
     "LLGrid getters, MachUp.Sw/lat_ref/long_ref, wing distributions",
     "every section of random airplanes compared with a discretisation written from the input description")
prop("C02", "Sections use the interpolated airfoil and the mixed control deflection",
     "Each wing section uses airfoil data interpolated linearly from root to tip, and is affected by a control surface exactly when its control point lies inside the surface's spanwise extent, with flap effectiveness and pitching moment from the local flap chord fraction and seal. "
     "The deflection of a section is the mix-weighted sum of aileron, elevator, rudder and flap input, aileron and rudder acting oppositely on left and right wings, with reduced effectiveness above 11 degrees; reported section coefficients are those of this airfoil at the reported angle of attack.",
     [IN, CF], "every pair of root/tip airfoils, control surface layout, mix and deflection",
     "tests deflect one full-chord layout at two angles; taper, unsealed gaps, partial spans, odd grids and mixes of several inputs are not sampled",
     ["llgrid.py", "llmodel.py", "geometry.py"],
     [("airfoil interpolation", "llgrid.py: section coefficients"), ("control surface coverage, effectiveness and mixing", "llgrid.py: control surfaces; geometry.py: get_control_mix"), ("deflection efficiency", "llmodel.py")],
     "LLGrid getters, wing distributions, LLModel.solve",
     "grid properties and reported section coefficients compared with reference formulas; mixed and single-input descriptions compared with each other")
prop("C03", "Wing solutions satisfy the lifting-line equations for the given state",
     "For every airplane, aerodynamic state (speed, density, alpha, beta, rotation rates) and control state, the inviscid, viscous and total forces and moments and all section distributions are those of the numerical lifting-line method (horseshoe vortices trailing along the freestream, linearised section lift, vortex lifting law plus polar drag and section moments) for the described geometry.",
     [IN, CF], "all wing systems without coincident vortices, all aerodynamic and control states",
     "tests compare a handful of states of two planes with stored numbers", ["llmodel.py"],
     [("induced velocity kernel", "llmodel.py: induced velocities"), ("linear system", "llmodel.py: matrix and right-hand side"), ("forces, drag and moments", "llmodel.py: force and moment computation")],
     "LLModel.solve, MachUp.distributions",
     "independent reference lifting line built from the input; plus reference-free orthogonality and equilibrium checks on the reported sections")
prop("C04", "Totals account for every component once, consistently in body and wind axes",
     "Total forces and moments equal the sum of the wing contribution (inviscid plus viscous, summed over all sections, moments about the center of gravity) and the contribution of every propeller. "
     "Lift, drag and side force are the same force resolved in wind axes: drag along the freestream, lift normal to it in the plane normal to the body y axis, side force completing the triad.",
     [IN, CF], "all airplanes and states with any number of wings and propellers",
     "tests compare totals with stored numbers for one plane without propellers", ["MU.py", "llmodel.py", "propssolver.py"],
     [("sum of components", "MU.py: solve"), ("rotation to wind axes", "llmodel.py and propssolver.py"), ("sum over propellers", "propssolver.py")],
     "MachUp.solve results and files, distributions, PropsSolver.solve",
     "totals rebuilt from reported sections, parts and single-propeller models")
prop("C05", "A mirrored airplane in mirrored flow produces mirrored loads",
     "Reflecting an airplane in its plane of symmetry (positions, sides, headings, propeller rotation directions) together with sideslip, roll and yaw rate, aileron and rudder leaves longitudinal forces and moments unchanged and flips FY, FS, MX and MZ. "
     "In particular a symmetric airplane in a symmetric state has no lateral force or moment.",
     [IN, CF], "all airplanes, states and controls",
     "tests have no propellers, no one-sided wings and even grids only", ["llgrid.py", "llmodel.py", "propmodel.py", "geometry.py"],
     [("left wing orientation", "llgrid.py: unit vectors"), ("left control mixing", "geometry.py"), ("rotation direction", "propmodel.py")],
     "MachUp.solve, distributions", "metamorphic: loads of mirrored pairs and of symmetric airplanes")
prop("C06", "Loads do not depend on the origin; moments follow the center of gravity",
     "Translating a whole airplane with its center of gravity changes nothing. Moving only the center of gravity (at construction or later through cg_location, including single coordinates and zero) leaves forces unchanged in non-rotating flow and changes moments by exactly the transfer r x F, while rotation rates always act about the current center of gravity.",
     [IN, CF, HI], "all airplanes, shifts and states, changes of the center of gravity between solutions",
     "no test moves the center of gravity of a model or has propellers", ["llmodel.py", "propmodel.py", "geometry.py"],
     [("moment arms", "llmodel.py, propmodel.py"), ("cg_location", "geometry.py"), ("rotation about the center of gravity", "llmodel.py")],
     "MachUp.solve, LLModel.solve", "metamorphic: translated airplanes, moved and re-moved centers of gravity")
prop("C07", "Results are dimensionally consistent",
     "Scaling all lengths, the speed (with rotation rates, propeller speeds) and the density of a problem scales every force by density x speed^2 x length^2 and every moment by one more length; nondimensional derivatives are unchanged. Hence any consistent unit system gives the same answer.",
     [IN, CF], "all airplanes, states and scale factors (electric motors excepted, they are tied to units)",
     "tests use one unit system", ["llmodel.py", "propmodel.py", "MU.py", "llgrid.py"],
     [("nondimensionalisation", "MU.py derivatives"), ("dimensional loads", "llmodel.py, propmodel.py")],
     "MachUp.solve, derivatives", "metamorphic: scaled pairs with random factors")
prop("C08", "Order, naming and left/right splitting of components are immaterial",
     "Describing the same airplane with its wings and propellers in another order, under other names, or with a two-sided wing split into a left and a right wing gives the same totals, reference quantities and section loads. Per-propeller states address propellers by name, whatever the order.",
     [IN, CF], "all airplanes and equivalent descriptions", "tests have one description per plane",
     ["geometry.py", "llgrid.py", "propssolver.py"],
     [("segment bookkeeping", "geometry.py: wings and connections; llgrid.py: slices"), ("per-propeller states", "propssolver.py")],
     "MachUp.solve, distributions", "metamorphic: random equivalent descriptions")
prop("C09", "Every analysis is a function of its arguments, not of what ran before",
     "The result of any call depends only on the airplane and the arguments of that call: after an arbitrary history of solves, derivatives, trims, stall searches, distributions and failed requests on a model, it equals what a fresh model returns. Omitted states and omitted entries mean their documented defaults every time.",
     [HI, IN], "all histories of public calls on one model, including failing ones", "each test makes one call on a new model",
     ["MU.py", "llmodel.py", "propmodel.py", "propssolver.py"],
     [("state arrays reused between solves", "llmodel.py: aero and control data"), ("iteration start values", "propmodel.py"), ("default states", "MU.py")],
     "every MachUp method", "random call histories on one model compared with fresh models call by call")
prop("C10", "Caller data is never modified and returned results are never changed later",
     "No analysis changes the dictionaries, lists or arrays it is given. Results and distributions returned to the caller are snapshots: later calls do not alter them, and altering them does not affect later calls.",
     [HI, IN], "all calls and all argument shapes, any interleaving of calls and caller-side edits",
     "tests never look at their arguments or old results again", ["MU.py", "llmodel.py", "propssolver.py"],
     [("copies of states in analyses", "MU.py"), ("result and distribution copies", "llmodel.py, propssolver.py")],
     "arguments and results of every MachUp method", "bitwise freezing of arguments and earlier results around every call, hostile edits of returned objects")
prop("C11", "Results are finite and never depend on uninitialised memory",
     "For every valid airplane and state, including zero or extreme angles, static and near-static propellers, single-section wings and points on slipstream axes, all reported numbers are finite and reproducible, independent of the previous content of memory.",
     [IN, CF], "all valid inputs including boundary values, all contents of fresh memory",
     "tests run ordinary states once", ["propmodel.py", "llmodel.py", "llgrid.py", "propssolver.py"],
     [("numpy.empty buffers", "propmodel.py, propssolver.py, llmodel.py"), ("branch-free index selection of section polars", "propmodel.py: CL and CD")],
     "MachUp.solve, distributions", "memory poisoning (a sanitizer for numpy.empty) with several fill patterns and finiteness monitors over boundary states")
prop("C12", "Equivalent propeller operating inputs give the same operating point",
     "Advance ratio, rotation rate, brake power and electric throttle are interchangeable descriptions of a propeller's operating point: the advance ratio and rotation rate satisfy J = V/(n d), the found rotation rate absorbs the requested brake power, and with a motor the shaft torque equals the motor torque in the airplane's units. A default advance ratio of 0.5 applies when no state is given, and each propeller uses its own state when states are given by name.",
     [IN, CF], "all propellers, speeds, densities and operating inputs in the powered range",
     "tests never run a propeller", ["propmodel.py", "propssolver.py"],
     [("operating state selection", "propmodel.py: prop state"), ("rotation rate search", "propmodel.py"), ("electric motor model", "propmodel.py")],
     "MachUp.solve, propeller distributions", "equivalent states solved on the same model; power and motor torque recomputed by the reference at the found speed")
prop("C13", "Blade sections are in equilibrium and their loads integrate to thrust and torque",
     "At every operating point each blade node's induced angle balances section lift and vortex-induced velocity, with section lift and drag from the stall-delayed, post-stall-extended polar at the reported angle of attack. Thrust, torque, off-axis loads and induced velocities are the spanwise integrals of these sections.",
     [IN, CF], "all blade geometries and operating points, stalled and windmilling nodes included",
     "tests never run a propeller", ["propmodel.py"],
     [("induced angle solution", "propmodel.py: induced angle iteration"), ("section polar", "propmodel.py: CL, CD"), ("integration", "propmodel.py: coefficients")],
     "propeller distributions, Thrust/Torque, MachUp.solve", "residual monitor and independent blade-element reference at the reported induced angles")
prop("C14", "Propeller loads act along its axis, at its position, in its rotation sense",
     "A propeller's thrust acts along its oriented forward axis at its position; torque reaction and off-axis normal force and yawing moment follow its rotation direction and the angle between axis and flow. Reversing the rotation keeps the forces and reverses torque and swirl; loads grow with density and with the square of speed at fixed advance ratio.",
     [IN, CF], "all orientations, positions, rotation senses, flow directions", "tests never run a propeller",
     ["propmodel.py", "geometry.py"], [("orientation and force resolution", "propmodel.py: forces"), ("rotation direction", "geometry.py")],
     "MachUp.solve", "reference force resolution in body axes, metamorphic rotation reversal and rigid rotation of propeller and flow")
prop("C15", "Wings feel exactly the slipstreams of the propellers in front of them",
     "The onset flow of a wing section is the freestream plus the slipstream velocity of every propeller whose streamtube contains its control point, with axial and swirl velocity of the contracted slipstream at that distance; sections outside of all slipstreams feel the freestream only. Wing loads and distributions are the lifting-line solution in that flow.",
     [IN, CF], "all relative placements of wings and propellers and all operating points", "tests never combine propellers and wings",
     ["propmodel.py", "propssolver.py", "llmodel.py", "MU.py"],
     [("immersed points", "propmodel.py"), ("slipstream development", "propmodel.py"), ("local velocities for the wings", "MU.py, propssolver.py, llmodel.py")],
     "PropsSolver.solve velocity field, MachUp.solve, distributions", "reference slipstream and lifting line from the solved induced angles; far-away and downstream propellers leave wings untouched")
prop("C16", "Derivatives are central differences of the model's own forces and moments",
     "Stability, control and damping derivatives, for both force axes, equal the central difference quotients of what solve returns at the perturbed states, made nondimensional with the dynamic pressure, reference area and the right reference length; the static margin is -Cm_a/CL_a. The combined report contains each family unchanged.",
     [IN, CF], "all airplanes, base states (including given rates and deflections)", "one test checks none of the derivatives of a plane with rates or propellers",
     ["MU.py"], [("derivative families", "MU.py: stability, control, damping derivatives")], "MachUp derivative methods",
     "every derivative recomputed from solves of a fresh model")
prop("C17", "Trim and target-lift results attain what was asked",
     "The angle of attack returned for a target lift, and the angle of attack and elevator returned for pitch trim, applied through solve in the same remaining state, produce the requested lift (and pitching moment) within the tolerance, or the request is reported as unattainable.",
     [IN, CF], "all airplanes, targets and base states", "no test trims", ["MU.py"],
     [("secant search", "MU.py: target lift"), ("Newton iteration", "MU.py: pitch trim")], "MachUp.target_lift, pitch_trim, solve",
     "returned states are applied to a fresh model")
prop("C18", "Stall searches report the first section to exceed its maximum lift",
     "The stall angle is the first angle of the search grid at which some section's lift coefficient exceeds its airfoil's maximum, below which none does; the reported wing, span location and lift belong to that state. The stall airspeed is the speed at which the lift at that onset equals the weight.",
     [IN, CF], "all airplanes, states and weights", "no test searches stall", ["MU.py", "llmodel.py"],
     [("search", "MU.py: stall onset and airspeed"), ("section comparison", "llmodel.py: stall location")], "MachUp.stall_onset, stall_airspeed, distributions",
     "onset replayed state by state with distributions of a fresh model")
prop("C19", "The aerodynamic center follows from the model's own force sweep",
     "The reported aerodynamic center is the one of the documented lift, drag and moment fit over the model's own forces for angles of attack from -10 to 10 degrees, placed relative to the center of gravity; it moves rigidly with the airplane and does not depend on units, speed or density.",
     [IN, CF], "all airplanes and states", "no test computes it", ["MU.py"], [("fit", "MU.py: find_aero_center")], "MachUp.find_aero_center",
     "independent least-squares fit over solves; metamorphic translation, scaling and center-of-gravity shift")
prop("C20", "The exported STL is the described geometry",
     "The STL file contains, for every wing section bay and propeller blade, the closed ring of facets through the section outlines: right number of facets, all finite, at the described positions, with the section's chord, twist, dihedral and NACA shape, mirrored for left wings.",
     [IN, CF], "all airplanes with any airfoil names, blade counts and grids", "no test writes an STL", ["outputstl.py", "MU.py"],
     [("section outlines and mesh", "outputstl.py")], "the STL file read back", "facets read back and compared with section outlines built from the input description")
prop("C21", "Files hold exactly what the call returns",
     "When a file name is given, the file is complete after the call, is readable in its format, and holds the same numbers that the call returned, under the documented headers; giving a file name never changes the returned numbers.",
     [IN, CF], "all analyses with a file output, all airplanes", "no test writes a file", ["MU.py"],
     [("json output", "MU.py, every analysis"), ("distribution tables", "MU.py: distributions")], "written files", "files parsed back and compared with the returned objects")
prop("C22", "A JSON description and the equivalent Python construction are the same airplane",
     "An airplane read from an input file and one built through the programming interface from the same values have identical geometry, sections and results; optional entries mean the same default in both.",
     [IN, CF], "all airplanes that both interfaces can express", "tests build few planes in only one of the two ways", ["geometry.py"],
     [("file reader", "geometry.py: Airplane and component constructors"), ("builder methods", "geometry.py: add_wing, airfoil, control_surface, add_prop")],
     "LLGrid, PropModel getters, MachUp.solve", "both constructions compared getter by getter and result by result, with and without omitted entries")
prop("C23", "Impossible requests are signalled, and the model stays usable",
     "A request that is incomplete, invalid or unattainable (missing speed or density, unknown propeller state, throttle without motor or units, static propeller without speed, untrimmable or unstallable airplane, missing elevator) raises an error, or writes the documented error entry when a file name is given, instead of returning numbers; afterwards the model answers valid requests as before.",
     [IN, HI, FS], "all invalid requests at any point of a history", "no test makes an invalid request", ["MU.py", "propmodel.py", "llmodel.py", "geometry.py"],
     [("argument checks", "propmodel.py, llmodel.py"), ("failure reports", "MU.py: trim and stall analyses")], "exceptions, error files, later results",
     "fault injection of invalid requests inside call histories, with the following valid call compared with a fresh model")
prop("C24", "Every analysis terminates within a bounded amount of work",
     "Every public analysis returns or signals failure after a bounded number of internal iterations, for every airplane and operating state, including states without solution.",
     [IN, CF], "all airplanes, states and targets, reachable or not", "a test that hangs is not a test; none uses hostile states",
     ["propmodel.py", "MU.py"], [("propeller iterations", "propmodel.py"), ("trim, target and stall loops", "MU.py")], "loop iteration counts of each call",
     "a loop-iteration clock (sys.monitoring) bounds every call under hostile states")
prop("C25", "Blade geometry input becomes exactly the described blade",
     "Radial stations, chord, aerodynamic pitch and zero-lift angle along the blade, position, orientation, rotation direction and node count are those of the description for every way of giving pitch (default, ratio, value, file, with increment) and chord (default, linear, elliptical, file) and any number of airfoils in any order.",
     [IN, CF], "all propeller descriptions", "tests never build a propeller model", ["propmodel.py", "geometry.py"],
     [("blade distributions", "propmodel.py: pitch, chord, coefficients"), ("propeller description", "geometry.py")], "PropModel getters", "getters compared with a blade built from the input description; section polars probed over all angles")
prop("C26", "Only the onset flow matters to the wings, however it is specified",
     "Speed, density, alpha and beta give the documented freestream in body axes, rotation rates give the velocity field of that rotation about the center of gravity, and an explicitly supplied per-section velocity and density field gives the same result as any other description of the same flow.",
     [IN], "all aerodynamic states and all per-section velocity fields", "tests use one alpha and beta each and one uniform local field",
     ["llmodel.py"], [("aerodynamic state processing", "llmodel.py")], "LLModel.solve", "the same flow specified in different ways, and arbitrary fields against the reference lifting line")
prop("C27", "Models are independent of each other",
     "Models of different airplanes (or of the same one) can be used alternately or from several threads without influencing each other's results, and building or solving one never changes another.",
     [HI, SC], "all interleavings of calls on several models, sequential and threaded", "tests use one model at a time",
     ["MU.py", "llmodel.py", "propmodel.py", "geometry.py"], [("default arguments and class attributes", "all modules"), ("per-model state", "llmodel.py, propmodel.py")],
     "results of interleaved calls", "interleaved and threaded histories (short switch interval) compared with isolated runs")
prop("C28", "Numbers mean the same whatever numeric type or container carries them",
     "An input value given as int, float, numpy scalar or integer array, and a sequence given as list, tuple or array (or a plain or ordered dictionary, or written without decimal point in a file), gives the same model and results as the float it equals.",
     [IN, CF], "all numeric types and containers of all inputs", "tests use one literal form for each input",
     ["geometry.py", "llgrid.py", "llmodel.py", "propmodel.py", "MU.py"], [("type dispatch and integer arrays", "geometry.py, propmodel.py, llmodel.py")],
     "all public results", "the same specification in different numeric types and containers; results compared with the all-float form")
prop("C29", "Calls have no effects besides their result and the requested file",
     "Building and solving changes no file, directory, descriptor, working directory or global setting except the file that was asked for; output that cannot be written completely is signalled; a call that fails before it has a result leaves an existing file as it was, and the model stays usable after any of these failures.",
     [HI, FS], "all call histories, write failures at any byte, and environments", "tests never fail a write",
     ["MU.py", "outputstl.py"], [("result files", "MU.py"), (".stl files", "outputstl.py")], "file system, process-wide state, exceptions",
     "directory, descriptor and global-state monitors around every call, with injected I/O faults")

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
    checks, na = [], list(NOT_APPLICABLE)
    for p in P:
        if os.path.exists(os.path.join(HERE, "vlib", "checks", p["id"].lower() + ".py")):
            cmd = "/opt/venv/bin/python -m vlib.run %s " % p["id"]
            checks.append(dict(property=p["id"], quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough", evidence_file="evidence/%s.json" % p["id"],
                               technique="runtime monitoring: " + p["note"], level="exploration",
                               level_note="randomised executions of the real code under an oracle; inputs are sampled, not enumerated (bounds: DESIGN.md)"))
        elif p["id"] not in [x["property"] for x in na]:
            na.append(dict(property=p["id"], reason="check under construction"))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import numpy, scipy, stl; import vlib.core\"", checks=checks, not_applicable=na)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(P), "properties", len(checks), "checks")


main()
