import json,sys
for f in sys.argv[1:]:
    j=json.load(open(f)); m=j.pop("violation_msg"); s=j.pop("samples"); p=j.pop("probes")
    print(f, {k:j[k] for k in("runs","distinct_histories","faults","errors","violation","known_hits")}); print({k:v for k,v in p.items()} ); print(m[:2500])
