import json,os
def mk(i,prop,edits,needs,what,demo,pre=''):
    d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
    json.dump(edits,open(d+'/edits.json','w'),indent=1)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.cc','w').write('#include <clpoly/clpoly.hh>\n#include <sstream>\n#include <iostream>\nusing namespace clpoly;\n'+pre+'int main() {\n'+demo+'\n}\n')
