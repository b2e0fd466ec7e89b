import re,json,glob
BIT={}
A={"ngxConfNoArgs":["0"],"ngxConfTake1":["1"],"ngxConfTake2":["2"],"ngxConfTake3":["3"],"ngxConfTake4":["4"],"ngxConfTake5":["5"],"ngxConfTake6":["6"],
"ngxConfBlock":["block"],"ngxConfExpr":["expr"],"ngxConfFlag":["flag"],"ngxConfAny":["any"],"ngxConf1More":["1+"],"ngxConf2More":["2+"],
"ngxConfTake12":["1","2"],"ngxConfTake13":["1","3"],"ngxConfTake23":["2","3"],"ngxConfTake34":["3","4"],"ngxConfTake123":["1","2","3"],"ngxConfTake1234":["1","2","3","4"],
"ngxDirectConf":["direct"],"ngxMgmtMainConf":["mgmt"],"ngxMainConf":["main"],"ngxEventConf":["events"],"ngxMailMainConf":["mail"],"ngxMailSrvConf":["mail.srv"],
"ngxStreamMainConf":["stream"],"ngxStreamSrvConf":["stream.srv"],"ngxStreamUpsConf":["stream.ups"],"ngxHTTPMainConf":["http"],"ngxHTTPSrvConf":["http.srv"],
"ngxHTTPLocConf":["http.loc"],"ngxHTTPUpsConf":["http.ups"],"ngxHTTPSifConf":["http.sif"],"ngxHTTPLifConf":["http.lif"],"ngxHTTPLmtConf":["http.lmt"],"ngxHTTPOIDCConf":["http.oidc"]}
A["ngxAnyConf"]=["main","events","mail","mail.srv","stream","stream.srv","stream.ups","http","http.srv","http.loc","http.ups","http.sif","http.lif","http.lmt"]
ORDER=["direct","mgmt","main","events","mail","mail.srv","stream","stream.srv","stream.ups","http","http.srv","http.loc","http.ups","http.sif","http.lif","http.lmt","http.oidc","0","1","2","3","4","5","6","7","block","expr","flag","any","1+","2+"]
maps={}; fn={}
for f in sorted(glob.glob('/repo/analyze_*_directives*.go')):
    if f.endswith('_test.go'): continue
    src=open(f).read()
    for m in re.finditer(r'var (\w+) = map\[string\]\[\]uint\{\n(.*?)\n\}\n',src,re.S):
        tab={}
        for e in re.finditer(r'"([^"]+)":\s*\{(.*?)\}',m.group(2),re.S):
            uses=[]
            body=re.sub(r'//[^\n]*','',e.group(2))
            for mk in body.split(','):
                mk=mk.strip()
                if not mk: continue
                fl=set()
                for n in mk.split('|'): fl|=set(A[n.strip()])
                uses.append([x for x in ORDER if x in fl])
            assert e.group(1) not in tab
            tab[e.group(1)]=uses
        maps[m.group(1)]=tab
    for m in re.finditer(r'func (\w+)\(directive string\) \(\[\]uint, bool\) \{\s*\w+, \w+ := (\w+)\[',src): fn[m.group(1)]=m.group(2)
print({k:len(v) for k,v in maps.items()}); print(fn)
N={"oss124":"MatchOss124","oss126":"MatchOss126","oss":"MatchOssLatest","plusR30":"MatchNginxPlusR30","plusR31":"MatchNginxPlusR31","plusR33":"MatchNginxPlusR33","plusR34":"MatchNginxPlusR34","plusR35":"MatchNginxPlusR35","plusR36":"MatchNginxPlusR36","plusR37":"MatchNginxPlusR37","plus":"MatchNginxPlusLatest","njs":"MatchNjsLatest","lua":"MatchLuaLatest","geoip2":"MatchGeoip2Latest","headers":"MatchHeadersMoreLatest","otel":"MatchOtelLatest","wafv4":"MatchAppProtectWAFv4","wafv5":"MatchAppProtectWAFv5"}
cat={k:maps[fn[v]] for k,v in N.items()}
d={}
for k in("plus","njs","otel"): d.update(cat[k])
cat["default"]=d
json.dump(cat,open('/verif/spec/data/catalog.json','w'),indent=0,sort_keys=True)
masks={json.dumps(v) for s in cat.values() for v in s.values()}
print(len(masks), sum(len(s) for s in cat.values()))
ov=[k for a in("plus","njs","otel") for k in cat[a] if sum(k in cat[b] for b in("plus","njs","otel"))>1]; print("overlap",ov)
