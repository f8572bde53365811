import json,sys
d=json.load(open(sys.argv[1]))
print(d['choices']); print(d['choices_before'],d['choices_after'],d['minimisation_attempts'])
for t in d['trace'] or []: print(*t)
