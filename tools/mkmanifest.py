import json,sys
sys.path.insert(0,'/verif')
from pyver import props
NA={
"C06":"the cluster count of a word is spread over two independent counters (the builder's lujvo_consonants and the analyser's has_cluster) that approximate it; no contract within reach relates them to the letters of the whole word",
"C12":"optimality compares the result with every other choice; the dynamic programme keeps one partial result per last letter, and its exchange argument needs a relational invariant over all choices that a functional contract cannot state here",
"C18":"loops have obvious variants, but the mutual recursion analyse -> jvokaha -> builder -> is_slinkuhi -> jvokaha has no measure that a contract over the arguments expresses: the word grows by 'to' at each level",
"C19":"the builder (least score) and the analyser (left-to-right decomposition) are independent algorithms; their agreement is a theorem about the language, not a consequence of contracts over either function",
"C21":"the verifier reads Python only; the JavaScript and Rust ports have no offline build or reliable test here, and agreement of three programs is not a contract of any one of them",
}
TODO="planned in this framework; no check registered yet"
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m={"version":1,"setup_cmd":"true","checks":[],"not_applicable":[],
 "notes":"No hooks are needed: the verifier reads the source of the functions of /repo on every run and the search calls them. Repaired and known defects are in known_findings.json."}
for i in ids:
    if i in props.PROPS:
        x=props.PROPS[i]
        m["checks"].append({"property":i,"quick_cmd":"python3-vt check.py %s --tier quick"%i,"thorough_cmd":"python3-vt check.py %s --tier thorough"%i,
          "evidence_file":"evidence/%s.json"%i,"technique":x.get("technique","deductive verification of function contracts on the real Python source (symbolic execution, z3/cvc5)"),
          "level":x["level"],"level_note":x["note"]})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,TODO)})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
