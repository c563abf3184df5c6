import json,sys
d=json.load(open(sys.argv[1]))['coverage']
print(json.dumps(d['undecided_reasons'],indent=1)[:int(sys.argv[2]) if len(sys.argv)>2 else 3000]); print(d['functions_not_summarised'])
