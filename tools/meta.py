"""Writes properties.jsonl and MANIFEST.json (run after adding a property)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "deltares_coastal_structures_toolbox/functions/"
HO, HR, HT = F + "hydraulic/wave_overtopping/", F + "hydraulic/wave_runup/", F + "hydraulic/wave_transmission/"
SR, SC, SB, ST = (F + "structural/stability_rock_armour/", F + "structural/stability_concrete_armour/",
                  F + "structural/stability_rock_rear/", F + "structural/stability_toe_berm/")
FC, FW = F + "structural/forces_caisson/", F + "structural/forces_crestwall/"
OT = [HO + m + ".py" for m in "taw2002 eurotop2018 eurotop2007 vangent2021_caisson vangent2025 deridder2024 deridder2026".split()]
ROCK = [SR + m + ".py" for m in ("hudson1959 vandermeer1988 vandermeer1988_modified vandermeer2021 etemadshahidi2020 scaravaglione2025 "
                                 "jumelet2024 kramerburcharth2004_lowcrested").split()]
CONC = [SC + m + ".py" for m in ("accropode_hudson1959 accropode2_hudson1959 core_loc_hudson1959 cubes_double_layer_hudson1959 "
                                 "cubes_double_layer_vandermeer1988 cubes_single_layer_vangent2002 cubipod_hudson1959 tetrapod_hudson1959 "
                                 "xbloc xblocplus").split()]
REAR = [SB + "vangent2007.py", SB + "vangentpozueta2004.py"]
TOE = [ST + m + ".py" for m in "gerding1993 vandermeer1998 vangentvanderwerf2014 etemadshahidi2021 takahashi1990_caisson".split()]
TRANS = [HT + m + ".py" for m in "briganti2003 dangremond1996 goda1967_caisson vangent2023 vangent2024_setup".split()]
RUN = [HR + m + ".py" for m in "taw2002 eurotop2018 vangent2001".split()]
CORE = [F + "core_physics.py", F + "core_utility.py"]
GODA, CW = [FC + "goda1985.py"], [FW + "vangentvanderwerf2019.py"]
ALL = CORE + RUN + OT + [HO + "vangent2002_velocity.py"] + TRANS + ROCK + CONC + REAR + TOE + GODA + CW

VAL_WHY = ("The tests pin a few hand-picked input rows per function to a number; the guarantee is about every combination of inputs and "
           "options, including both sides of every regime limit and which optional inputs are given.")
VAL_TECH = "property-based differential testing against an independent reference model (threshold-aimed generation)"
VAL_NOTE = ("Randomised search: every public function of the area, scalars and arrays, against a second implementation written from the "
            "published formulas; trusts that reference model and the plausible input domain of the generator. No proof of absence.")


def value(i, title, st, files, mech, text):
    return dict(id=i, title=title, statement=st, over=["inputs", "configurations"], text=text, why=VAL_WHY, files=files,
                mech=mech, tech=VAL_TECH, note=VAL_NOTE)


P = [
    value("C01", "Basic wave and rock quantities are physically exact",
          "Wave steepness, surf similarity, local and deep water wavelength, buoyant density, stability number and the conversions between "
          "rock mass and nominal diameter equal their physical definitions for every physically meaningful input. The local wavelength solves the "
          "linear dispersion relation at every depth, and conversions are exact inverses of each other.",
          CORE, [("closed formulas and the iterative dispersion solution", F + "core_physics.py")],
          "all positive wave heights, periods, depths, densities, gravity values; scalar and array"),
    value("C02", "Wave runup follows the published runup formulas",
          "Runup levels and all influence factors (berm, roughness, oblique waves, average slope) equal the published TAW 2002, "
          "EurOtop 2018 and Van Gent 2001 formulas for every admissible input, mean value or design value alike. Each regime of the formula (breaking, "
          "non-breaking, berm position, surf similarity limits) applies exactly on its own side of its limit, and a supplied influence factor is used as "
          "supplied.",
          RUN, [("z2% formulas, gamma functions, average slope iteration", HR + "taw2002.py"), ("EurOtop 2018 variants", HR + "eurotop2018.py"),
                ("Van Gent 2001", HR + "vangent2001.py")],
          "all waves, slopes (single or composite), berms, angles, roughness values, coefficient overrides"),
    value("C03", "Slope overtopping follows TAW 2002 and EurOtop",
          "The mean overtopping discharge and required crest freeboard on dikes, slopes and rubble mounds equal the published TAW 2002, EurOtop 2007 "
          "and EurOtop 2018 formulas for every admissible input, including the cap by the maximum formula and whether the cap governs. Given "
          "influence factors and options are honoured as given.",
          [HO + "taw2002.py", HO + "eurotop2018.py", HO + "eurotop2007.py"],
          [("breaking and maximum equations combined by the smaller", HO + "taw2002.py"), ("same, and rubble mound formulas", HO + "eurotop2018.py")],
          "all waves, slopes, berms, freeboards, discharges, angles, roughness, options and coefficient overrides"),
    value("C04", "Recent overtopping formulas are computed as published",
          "Overtopping discharge, crest freeboard, flow velocity and influence factors equal the published Van Gent 2002 (velocity), Van Gent 2021 "
          "(caissons), Van Gent 2025, De Ridder 2024 and De Ridder 2026 formulas for every admissible input, including combined sea and swell, crest wall, wind, oblique "
          "waves and design values.",
          [HO + m + ".py" for m in "vangent2002_velocity vangent2021_caisson vangent2025 deridder2024 deridder2026".split()],
          [("discharge / freeboard equations and influence factors", HO + "vangent2025.py"), ("caisson equations", HO + "vangent2021_caisson.py"),
           ("low and high frequency wave equations", HO + "deridder2024.py")],
          "all waves, crest and wall geometries, angles, wind option, design option and coefficient overrides"),
    value("C05", "Transmission and setup are computed as published",
          "Wave transmission coefficients and wave setup equal the published d'Angremond 1996, Briganti 2003, Goda 1967 and Van Gent 2023/2024 "
          "formulas for every admissible input, with the published lower and upper limits on transmission and the blending between narrow and wide crests applied.",
          TRANS, [("transmission formulas with limits", HT)], "all waves, crest levels (emerged and submerged), widths, slopes, structure types"),
    value("C06", "Rock armour stability is computed as published",
          "Stone diameter, damage, stability number and allowable wave height for rock armour equal the published formulas (Hudson, Van der Meer "
          "1988, modified and 2021, Etemad-Shahidi 2020, Scaravaglione 2025, Jumelet 2024, Kramer & Burcharth 2004) for every admissible input. Plunging versus "
          "surging and deep versus shallow branches are chosen exactly by the published criterion.",
          ROCK, [("plunging/surging selection and formula inversions", SR)], "all waves, slopes, permeabilities, damage levels, densities"),
    value("C07", "Concrete armour sizing is computed as published",
          "Unit size, mass, volume, damage and allowable wave height of concrete armour units (cubes, tetrapods, cubipods, Accropode I and II, Core-Loc, Xbloc, "
          "XblocPlus) equal the published formulas for every admissible input. All published correction factors apply with their stated limits and are combined as "
          "the guidelines prescribe, and the tabulated unit properties are the published ones.",
          CONC, [("Hudson type sizing", SC), ("correction factors", SC + "xbloc.py")], "all waves, slopes, densities, stability coefficients, correction triggers"),
    value("C08", "Rear-side stability is computed as published",
          "Rear-side stone size, damage, allowable wave height and the overtopping velocity it is based on equal the published Van Gent & Pozueta "
          "2004 and Van Gent 2007 formulas for every admissible input.",
          REAR, [("maximum velocity and damage formulas", SB)], "all waves, crest and rear geometries, roughness, damage levels"),
    value("C09", "Toe and berm stability is computed as published",
          "Toe and foundation stone size, damage, depth and allowable wave height equal the published Gerding 1993, Van der Meer 1998, Van Gent & "
          "Van der Werf 2014, Etemad-Shahidi 2021 and Takahashi 1990 formulas for every admissible input.",
          TOE, [("damage / size / depth formulas and their inversions", ST)], "all waves, toe geometries, stone sizes, damage levels"),
    value("C10", "Caisson wave pressures, forces and stability follow Goda",
          "Wave pressures, uplift, forces, moments, safety factors against sliding and overturning, required caisson mass and bearing pressures equal the "
          "published Goda 1985 and Takahashi 1994 formulas for every admissible wave and caisson geometry.",
          GODA, [("pressure distribution, force and moment integration, safety factors", FC + "goda1985.py")],
          "all waves, depths, berm levels, crest levels, widths, angles, densities"),
    value("C11", "Crest wall forces follow Van Gent & Van der Werf 2019",
          "Horizontal and vertical 2% forces and pressures on crest walls and the friction stability of the wall equal the published formulas for every admissible "
          "input, including oblique waves, and forces never become negative.",
          CW, [("force equations and oblique wave reduction", FW + "vangentvanderwerf2019.py")], "all runup levels, wall geometries, angles and densities"),
    dict(id="C12", title="Crest freeboard and overtopping discharge are mutual inverses",
         statement="In every overtopping formula that offers both, the crest freeboard computed for a discharge gives exactly that discharge back, and the "
         "discharge computed for a freeboard gives that freeboard back, with all options equal. The dimensionless variants are the dimensional ones scaled by "
         "the wave height and by the root of gravity times its cube.",
         over=["inputs", "configurations"], text="all pairs of discharge and freeboard functions, all waves, slopes, factors, options and gravity values",
         why="Tests check each direction at a few points with independently rounded numbers; the two directions can drift apart for untested options "
         "(gravity, design values, maximum branch, wind).",
         files=OT, mech=[("each freeboard function is the algebraic or iterative inverse of its discharge function", HO)],
         tech="property-based round-trip testing (both directions, dimensional and dimensionless)",
         note="Random search over the emerged-crest domain; iterative pairs compared within the iteration's tolerance."),
    dict(id="C13", title="Sizing formulas invert exactly: size, damage, wave height and load",
         statement="Every formula offered in several solved-for forms (stone size, damage, wave height, number of waves, depth, density, mass, stability coefficient) "
         "gives back the starting value when its result is fed into the corresponding other form with all else equal.",
         over=["inputs", "configurations"], text="all pairs of inverse functions for rock, concrete, rear-side and toe stability and basic conversions",
         why="Tests check each function alone at a few points; an error in one inverse, option or branch that is not sampled goes unnoticed.",
         files=ROCK + CONC + REAR + TOE + CORE, mech=[("hand-derived algebraic inverses", F + "structural/"), ("mass and diameter conversions", F + "core_physics.py")],
         tech="property-based round-trip testing over all inverse pairs",
         note="Random search; iterative inverses compared within their tolerance; pairs whose published coefficients are only rounded inverses use that rounding as bound."),
    dict(id="C14", title="Out-of-range inputs always warn, in-range inputs never do",
         statement="A calculation warns about a parameter exactly when that parameter (or the combination its formula restricts) lies outside the formula's published "
         "range of validity, naming the parameter, value, range and formula. Values at or inside the limits give no such warning, and the warning never changes the "
         "result.",
         over=["inputs", "configurations"], text="all inputs at, just inside and just outside every validity limit, scalar and array, of every calculation",
         why="Tests cover few limits, mostly of the stand-alone range checks; whether each calculation actually checks each limit with the right inputs is not sampled.",
         files=ALL, mech=[("validity range checks called by each calculation", F), ("range check and warning text", F + "core_utility.py")],
         tech="property-based testing against a reference ledger of validity limits, generation aimed at each limit",
         note="Random search aimed at each limit; trusts the transcription of the published ranges; arrays containing missing values are excluded."),
    dict(id="C15", title="Arrays are computed element by element, exactly like scalars",
         statement="Calling a calculation with arrays gives in every element what the call with that element's scalars gives, whichever inputs are arrays and whatever the order, "
         "number (one or more), shape or regime mix of the elements. One element never influences another, and the result has the arrays' shape.",
         over=["inputs", "configurations"], text="all subsets of array-valued inputs, lengths including one, element orders, mixed regimes",
         why="Tests use few arrays, mostly for one input at a time, and with elements in the same regime.",
         files=ALL, mech=[("element-wise numpy evaluation and branch masks", F)],
         tech="property-based differential testing: array call against per-element scalar calls, permutations and slices",
         note="Random search over subsets, lengths and regime mixes; iterative solutions within their tolerance."),
    dict(id="C16", title="Missing or contradictory inputs are rejected, complete ones accepted",
         statement="When an input that is needed to determine the result is absent, or inputs are given that contradict each other or are not recognised, the calculation "
         "raises an explicit error instead of returning a number. Every complete and consistent combination of alternative inputs is accepted.",
         over=["inputs", "configurations"], text="all combinations of present and absent alternative inputs of all calculations that have them",
         why="Tests try single combinations for some functions; the combinations are many and differ per function.",
         files=[F + "core_utility.py", F + "core_physics.py", HO + "eurotop2018.py", HR + "taw2002.py", SR + "etemadshahidi2020.py", SB + "vangent2007.py"],
         mech=[("input completeness checks", F + "core_physics.py"), ("per-formula checks", F)],
         tech="property-based testing of generated input combinations against a reference decision of completeness",
         note="Random search over presence patterns; trusts the reference decision."),
    dict(id="C17", title="Calculations are pure: no memory, no mutation, no side effects",
         statement="A calculation's result, errors and warnings depend only on the arguments of that call, whatever calls went before it, ran beside it in other threads, or "
         "failed. It never changes the caller's arrays, never returns memory shared with them or with a later result, never alters global state (warning filters, numpy error state, random "
         "state, working directory, constants), prints nothing and writes no files unasked.",
         over=["inputs", "histories", "schedules"], text="all sequences and interleavings of calls of all calculations, successful or rejected, with scalar and array inputs",
         why="Tests call each function once with fresh inputs; a cache, a mutated argument or a leaked setting shows only in particular call sequences.",
         files=ALL, mech=[("stateless functions throughout", F)],
         tech="stateful property-based testing: generated call histories, in-place overwriting of earlier inputs and results, threads, against fresh-process outcomes",
         note="Random histories of a few to a few dozen calls; global state is compared for the listed kinds only."),
    dict(id="C18", title="Results are dimensionally consistent: unit scale never matters",
         statement="When all lengths, times, masses and gravity of an input are scaled consistently (a Froude model, another liquid density, another gravity where the formula has it as input), every "
         "result scales with its own dimension and every dimensionless result, flag and warning stays the same. No hidden absolute length, time or force enters a formula that is published as dimensionless.",
         over=["inputs", "configurations"], text="all inputs of all dimensionally homogeneous calculations and all scale factors",
         why="Tests use prototype scale only; an absolute constant, a rounding or a clipping in metres shows only at other scales.",
         files=ALL, mech=[("dimensionless formulas rescaled to dimensional results", F)],
         tech="metamorphic property-based testing with consistent scale factors (powers of four, so scaling is exact)",
         note="Random search; formulas with published dimensional constants are excluded from the scaling they do not obey; trusts the exponent table mined on the reference formulas."),
    dict(id="C19", title="Physical trends hold: more load is never milder, more strength never worse",
         statement="Changing one input in the direction that increases the load (higher or longer waves, lower crest, rougher to smoother slope, less oblique) never lowers overtopping, runup, forces, damage or "
         "the required size, and changing one in the direction that adds strength (larger or denser units, more permitted damage, flatter slope where the formula says so) never does the "
         "opposite; wherever the published formula has such a trend, the calculation follows it without jumps against it.",
         over=["inputs", "configurations"], text="all pairs of inputs of a calculation that differ in one parameter in which its formula is monotone",
         why="Tests check isolated points; a trend is a relation between all pairs of points, also across regime limits.",
         files=ALL, mech=[("formulas monotone in their physical parameters", F)],
         tech="metamorphic property-based testing: ordered pairs of inputs must give ordered results",
         note="Random pairs, near and far, also across thresholds; only pairs for which the reference formula itself has the trend are judged."),
    dict(id="C20", title="Results stay physically possible and ordered among related calculations",
         statement="Every defined result is a real finite number inside its physical limits: discharges, sizes, masses, damage and probabilities are never negative, influence factors and coefficients stay "
         "within their published limits, and no result exceeds the maximum or falls below the minimum its formula sets. Related results are ordered: the design value is never milder than the mean value, "
         "the capped result never exceeds the cap, and a stronger option of the same calculation never needs more.",
         over=["inputs", "configurations"], text="all inputs of all calculations, and all pairs of related calculations on the same input",
         why="Tests look at one result at a time at chosen points; limits and orderings must hold for every input, most of all at the extremes and in rarely taken branches.",
         files=ALL, mech=[("clipping to published limits, mean and design coefficient sets, caps", F)],
         tech="property-based testing of invariants (bounds, order relations) on generated inputs, extreme inputs included",
         note="Random search; bounds and order relations are judged only where the reference formula itself satisfies them."),
    dict(id="C21", title="Equivalent ways of giving the same input give the same result",
         statement="Giving a rock by mass or by diameter, an oblique wave by angle or by its influence factor, one slope as single or as composite with equal parts, an omitted optional input or "
         "its documented default, arguments by position or by name, as int, float or numpy scalar, gives the same result and warnings. Composing the partial calculations by hand gives the result of the whole calculation.",
         over=["inputs", "configurations"], text="all inputs of all calculations and all their equivalent formulations",
         why="Tests use one formulation per case; equality of formulations is a relation over all inputs and options.",
         files=ALL, mech=[("input normalisation and delegation between calculations", F)],
         tech="metamorphic property-based testing: two formulations of the same generated input must agree",
         note="Random search; an equivalence is judged only where the published formulas make it exact, or up to the stated tolerance of an iterative solution."),
    dict(id="C22", title="No unpublished jumps: results change abruptly only where the formula does",
         statement="Along any continuous change of one input, every result changes continuously, except at a limit where the published formula itself jumps, and there by no more than the "
         "published jump. Where two regimes of a formula meet (breaking and non-breaking waves, plunging and surging waves, caps, clipped influence factors), the calculation has no step that the published regimes do not have.",
         over=["inputs", "configurations"], text="all segments in one parameter of all calculations",
         why="Tests sample points on either side of a limit, if any; a jump is a relation between infinitely close inputs at a place that is not known beforehand.",
         files=ALL, mech=[("regime selection, minima and maxima, clipped factors", F)],
         tech="property-based search: generated segments, bisection towards the largest change of the result, against the jump of the published formula there",
         note="Random segments; jumps below 1e-5 of the result (0.5% for iterative calculations) are not seen."),
    dict(id="C23", title="Iterative calculations end and solve their equation",
         statement="Every calculation ends, whatever values it is given (undefined, zero, negative or infinite ones included), and iterative ones stop after the allowed number of iterations. A converged result "
         "satisfies its implicit equation to the requested tolerance, does not depend on the start value where the equation has one solution, and approaches that solution as the tolerance is tightened; where non-convergence is "
         "reported, it is reported when and only when the iteration did not settle.",
         over=["inputs", "configurations"], text="all inputs, start values, tolerances and iteration limits of the iterative calculations; termination for all calculations",
         why="Tests compare a few converged results with numbers; they never look at the residual, at start values, limits or inputs that do not converge.",
         files=[HR + "taw2002.py", HR + "eurotop2018.py", HO + "vangent2025.py", SR + "kramerburcharth2004_lowcrested.py", SR + "jumelet2024.py", SR + "etemadshahidi2020.py",
                ST + "etemadshahidi2021.py", ST + "takahashi1990_caisson.py", SB + "vangent2007.py", SB + "vangentpozueta2004.py"],
         mech=[("fixed-point iterations with tolerance and iteration limit", F), ("search loops", ST + "takahashi1990_caisson.py")],
         tech="property-based testing: residual of the fixed-point equation, metamorphic changes of start value and tolerance, fuzzing with undefined values under a CPU limit",
         note="Random search; convergence is required only where the published equation contracts; a run over 30 s of CPU counts as not ending."),
    dict(id="C24", title="Exported model input files hold exactly the given cases",
         statement="The input files written for the neural network and XGBoost overtopping models contain every given case once, in order, each value in the column the model expects and readable back as "
         "the value given, for scalars and arrays of any length. Writing replaces a previous file of that name completely, touches no other file, and leaves the caller's data as they were.",
         over=["inputs", "histories"], text="all case tables, file names, folders and sequences of writes",
         why="The writers have no tests; rows, columns and rounding must be right for every table, and stale content shows only after a second write.",
         files=[HO + "denbieman2021.py", HO + "vangent2007.py"],
         mech=[("CSV export for the XGBoost model", HO + "denbieman2021.py"), ("fixed comment header and space separated rows for the neural network", HO + "vangent2007.py")],
         tech="stateful property-based testing: generated sequences of writes into a scratch folder, read back and compared with a model of the folder (round trip)",
         note="Random sequences of up to five writes and tables of up to 200 cases; the file format is taken from the code and its documentation."),
]


def main():
    have = [p for p in P if os.path.exists(os.path.join(ROOT, "vp", "props", p["id"].lower() + ".py"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in have:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": ["return values and warnings of the public functions"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [
        {"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
         "technique": p["tech"], "level": "exploration", "level_note": p["note"], "evidence_file": "evidence/%s.json" % p["id"]} for p in have],
        "not_applicable": [],
        "notes": "No hooks in /repo. Checks import /repo's working tree directly (pure Python, nothing to build). See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
