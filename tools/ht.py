import sys; sys.path[:0]=['/verif/cppvc','/verif/contracts']
import registry, tempfile
p=sys.argv[1]; h=registry.PROPS[p]["harness"]; r=h(p,float(sys.argv[2]) if len(sys.argv)>2 else 5,[],tempfile.mkdtemp(),7,False); print(r.get("failure"), r["summary"], r.get("error"))
