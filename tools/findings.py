"""Records the fix: commits of /repo in known-findings.json."""
import json,subprocess
H='/verif'
prop={ # subject prefix -> property
"Diagnostic releases its":"C07","the JSON lexer ends a string":"C03","JSON unescape()":"C03","JSON conversion of a single":"C02",
"the JSON parser rejects a text without":"C04","the JSON parser accepts white space after":"C02","JSON conversion releases a partly":"C04",
"the JSON lexer does not take letters":"C04","a JSON lexer":"C32","positions of a JSON lexer":"C32","JSON conversion to text rejects":"C04","JSON conversion to unsigned":"C04","JSON conversion to a map rejects":"C04",
"JSON conversion to std::optional":"C04","JSON conversion to a character fails":"C04","a sequence without representable":"C02","a JSON field is found by its name also":"C05","a JSON object does not end inside":"C05","a JSON object without a name":"C05",
"indexes of a JSON array":"C06","a JSON array with a repeated":"C06","the name of a JSON object is found":"C05","an error is recorded if a key":"C04","isDiff() does":"C14","setDiffPos() forgets":"C14","TransparentQueue keeps its elements":"C01","keep the position in Redirect":"C14","do not close a file of Redirect":"C14","redirected data are":"C14","move assignment of Redirect":"C14","comparison of a chain":"C15","postdecrement":"C15","chain iterators can":"C15","a constant node":"C15","numbers of guards":"C09","BinomialSystem does not keep an equation":"C09","the range of instantiated":"C09","an equation with zero":"C08","equations which become":"C08","values of an affine":"C08","Equation.h includes":"C10","JSON conversion of diagnostics keeps":"C07",
"trait::set and trait::unset accept":"C16","TraitSet::release":"C17","move assignment of TraitSet":"C17",
"CopyFromCellFunctor":"C18","MoveToCellFunctor":"C18","maps of types and traits keep":"C18","MergeCell is not":"C19","TypeList<>::for_each_type":"C19",
"tagged_tuple_idx finds":"C20","get_tagged_tuple keeps":"C20",
"marray, marray_f: move":"C21","marray_f: one-dim":"C21","shrinkPair":"C22","numberOf":"C23","binary literal":"C23","make_unique_piecewise":"C23","Diagnostic.h includes":"C33","Json.h includes":"C33","CSocket.h includes":"C33","ValuePtrWrapper.h includes":"C33","the package configuration":"C34","the C socket library of":"C34","a project which is configured again":"C34","bcl_replace":"C35","utility.h":"C23","legacy ToText":"C27","legacy exceptions include":"C30","legacy values":"C31","an undefined legacy":"C31","comparison of a legacy value":"C31","nodes of a legacy tree":"C29","missing subtrees":"C29","legacy cells can":"C29","move assignment of IntrusiveConnection":"C12","IntrusiveConnection notifies":"C12","every request is rejected":"C12","a client which closed the connection":"C13","a descriptor reused":"C13","the socket server":"C13","IntrusiveConnection releases its state":"C13","JSON_OBJECT_ROOT_PAIR":"C25","the Node.js connector":"C26","connect() with wrong":"C26"}
k=json.load(open(H+'/known-findings.json'))
have={e.get('commit') for e in k['findings']}
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: ') or h in have: continue
    s=s[5:]
    p=[v for a,v in prop.items() if s.startswith(a)]
    if not p: print('unmapped',h,s); continue
    k['findings'].append({"id":f"{p[0]}-{h}","property":p[0],"status":"fixed","commit":h,"what":f"fixed: property={p[0]} {h} repaired so that: {s}"})
if not any(e['id']=='C02-optional-null' for e in k['findings']):
    k['findings'].append({"id":"C02-optional-null","property":"C02","status":"known","what":"std::optional<std::string> holding exactly \"null\" is written as \"null\" and reads back as no value"})
json.dump(k,open(H+'/known-findings.json','w'),indent=1); open(H+'/known-findings.json','a').write('\n')
