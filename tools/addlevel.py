"""addlevel.py ID LEVEL TECHNIQUE NOTE"""
import json,sys
p='/verif/tools/levels.json'
d=json.load(open(p))
d[sys.argv[1]]={'level':sys.argv[2],'technique':sys.argv[3],'note':sys.argv[4]}
json.dump(dict(sorted(d.items())),open(p,'w'),indent=1,ensure_ascii=False)
