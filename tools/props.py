"""Single source for properties.jsonl and the matching part of MANIFEST.json (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "nonlinear_avoidance/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=[N + f for f in files],
                  mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None,
                  **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {})),
                  _t=technique, _n=note, _na=na))

prop("C01", "Evaluating never changes what the caller handed in",
 "Asking any part of the library a question (the velocity of a dynamical system, an avoidance velocity, a distance value, a normal, a weight, a rotation, a projection) or building an object leaves every array, list, pose, obstacle and object the caller passed in exactly as it was. This holds on every path, including early returns, boundary obstacles, empty environments and degenerate inputs. Evaluating twice with the same argument object is therefore the same as evaluating twice with copies.",
 ["inputs", "histories"], "every public evaluation entry point and constructor, every argument (any aliasing between arguments or views), every path through the code",
 "Tests hand over fresh literals and look at the returned value only; an in-place scaling of an argument or of a view of it shows only when the caller reuses the array on the particular path that writes.",
 ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py", "vector_rotation.py", "dynamics/", "multi_body_human.py"],
 [("copies before in-place work", "np.copy / rebinding arithmetic throughout the evaluation code"), ("frames transformed into new arrays", "obstacles and dynamics: transform_*")],
 ["arguments of every query after it returned or raised"],
 "interprocedural alias / mutation effect analysis over the AST",
 "Sound up to the resolution of calls and the in-place table of external libraries; deliberate registration of a new element at its parent is exempt.")

prop("C02", "Rotation operations leave operands alone and give independent results",
 "Composing, inverting, scaling, copying, averaging or applying rotations, rotation sequences and rotation trees never changes the rotations that took part. A rotation obtained from another one (copy, inverse, composition, cumulated, derived from directions) shares no array with it: changing one later does not change the other. Only operations that are explicitly edits (appending, pushing, setting, adding nodes) change a rotation object, and only the one they are called on.",
 ["inputs", "histories"], "all rotation operations, all operand combinations and all later edit histories of operands and results",
 "Tests compare a result once right after computing it; sharing shows only when an operand or a result is edited afterwards.",
 ["vector_rotation.py"],
 [("rotation value classes", "VectorRotationXd / VectorRotationSequence / VectorRotationTree"), ("scratch weights of a tree query", "per-node 'weight', 'orientation' entries recomputed per query")],
 ["fields of every operand after the operation; arrays reachable from the result"],
 "effect and escape (alias of result) analysis of every rotation operation",
 "Decides writes and sharing, not the numeric value of the rotation.")

prop("C03", "An answer depends on the question and the environment, not on earlier questions",
 "The answer of an evaluation (velocity, avoidance velocity, distance value, normal, weights, convergence direction) depends only on its arguments and on the configuration of the objects involved, not on which other positions were evaluated before, in which order, or how often. Working values kept on an object are recomputed in a query before that query reads them. A returned array is the caller's to keep: later queries do not change it and changing it does not change later answers.",
 ["histories", "inputs"], "all sequences of queries on one object, all interleavings of different query methods, all edits of returned arrays",
 "Tests evaluate a freshly built object at one position; stale per-query state shows only for particular orders of queries or when a branch skips the refresh.",
 ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py", "nonlinear_rotation_avoider.py", "dynamics/", "multi_hull_and_obstacle.py", "gmm_obstacle.py", "rotation_container.py"],
 [("per-query working lists are reset first", "MultiObstacleAvoider.evaluate / compute_*"), ("copies handed out", "dynamics and obstacles' accessors")],
 ["answers of the same question before and after other questions"],
 "definite-assignment dataflow on object state across the call graph + escape analysis of answers",
 "A read of per-query state must be preceded by its write on every path of every entry point; settings written once by constructors/setters are configuration. Four genuine, recorded exceptions are in known_findings.txt.",
 state=[("per-query working state", "lists of the last query (weights, node lists, sequences)", "MultiObstacleAvoider, MultiHullAndObstacle")])

prop("C11", "Every operation the library performs is defined",
 "No code path of the library can fail because of a name, method, attribute, argument or import that does not exist or was not yet assigned: every name read is bound on every path leading to it, every attribute read on a library object exists on its class, and every call binds to the signature of the function it reaches. Arguments are not handed over crosswise. This includes rarely used branches: other dimensions, empty environments, boundary obstacles, error handling, optional arguments.",
 ["inputs", "configurations"], "every function, every branch, every call site of the package",
 "One test runs in this environment; python checks none of this before the branch is executed, and the branches in question are the rare ones.",
 ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py", "vector_rotation.py", "multi_body_human.py", "dynamics/", "kmeans_learner/", "gmm_obstacle.py"],
 [("python name, attribute and call binding", "whole package")],
 ["NameError / UnboundLocalError / AttributeError / TypeError on any call"],
 "scope resolution, definite-assignment dataflow, class-attribute and call-signature checking on the AST",
 "Attributes of objects whose class is external or unknown are not judged. A loop is assumed to run at least once for the definite assignment of names.")

prop("C12", "A control cycle never stops for a person and never hides an error",
 "No evaluation, update or construction of the library can wait for a person, enter a debugger, open a blocking window, sleep, end the process or run another program. An error is never swallowed: a handler catches a specific error it can recover from, and what it does not recognise reaches the caller. Optional debugging or plotting is off unless asked for.",
 ["inputs", "fault_sequences"], "every path of every library function reachable from a control loop, every exception raised below it",
 "The blocking or swallowing sits on unusual-input branches which the tests never enter; a test cannot show absence.",
 ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py", "multi_body_human.py", "vector_rotation.py", "dynamics/"],
 [("errors are raised", "ValueError / NotImplementedError at unusual inputs")],
 ["the calling control loop: it gets an answer or an exception"],
 "forbidden-call reachability over the call graph + exception-handler discipline",
 "Calls are resolved through imports, aliases and class hierarchy; code inside external packages is not judged.")

prop("C13", "Every evaluation, walk and update terminates",
 "Every loop and recursion of the library ends for every input: counted loops move towards their bound, walks over obstacle or rotation hierarchies move one level per step, work lists shrink, searches have a finite budget. No loop changes the collection it iterates over. Recursion always descends and has a path that stops.",
 ["inputs", "configurations"], "all loops and recursion cycles, every path through a loop body, every hierarchy shape",
 "A test that ends shows one run; a `continue` that skips the step of a hierarchy walk hangs only for particular shapes.",
 ["multi_obstacle.py", "multi_body_human.py", "vector_rotation.py", "graph_handler.py", "multi_obstacle_avoider.py", "kmeans_learner/kmeans_motion_learner.py"],
 [("breadth-first work lists", "obstacle and rotation trees"), ("bounded searches", "kmeans surface points and learner loops")],
 ["return of every call"],
 "ranking-pattern analysis of every loop on every back-edge path + recursion cycles of the call graph",
 "Ranking patterns are syntactic-semantic; finiteness of hierarchies is C04/C05. A loop matching no known pattern is reported.")

prop("C15", "Every question gets an answer on every path",
 "A function that answers on one path answers (or raises a clear error) on every path: no branch falls off the end, returns nothing, or computes the answer and drops it. Where 'no result' is a possible answer, or an argument is optional, the library tests for it before it uses the value. Overriding variants of a query answer like the original.",
 ["inputs", "configurations"], "every function, every path, every optional argument left out, every possibly-empty result",
 "Tests take the main branch; the missing return or the untested None is on another.",
 ["multi_obstacle_avoider.py", "avoidance/rotational_avoider.py", "vector_rotation.py", "dynamics/", "multi_body_human.py", "gmm_obstacle.py"],
 [("explicit returns and None guards", "whole package"), ("zero-velocity short cuts", "evaluate_dynamics_sequence and its callers")],
 ["returned value of every query"],
 "interprocedural nullness and return-completeness dataflow",
 "External packages are assumed to return values; fields of objects that may be None are followed where the class assigns them.")

exec(open(os.path.join(V, "tools", "props2.py")).read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = dict(version=1, setup_cmd="python3 -c 'import ast, sys; sys.exit(0 if sys.version_info >= (3, 9) else 1)'",
             checks=[], not_applicable=[], notes="Pure static analysis (python stdlib ast) of /repo's current source; see DESIGN.md.")
    for p in P:
        if p["_na"]:
            m["not_applicable"].append(dict(property=p["id"], reason=p["_na"]))
        else:
            m["checks"].append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                thorough_cmd=f"python3 check.py {p['id']} --tier thorough", technique=p["_t"], level="other", level_note=p["_n"]))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
