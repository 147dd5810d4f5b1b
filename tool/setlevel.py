import json,sys
d=json.load(open('/verif/props.json'))
for p in sys.argv[1:]: d['claimed'][p]['level']='proof'
json.dump(d,open('/verif/props.json','w'),indent=1)
