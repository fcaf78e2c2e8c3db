import subprocess
P = {}
def p(prop, *hs):
    for h in hs: P[h]=prop
p("P13","212b73a"); p("P06","521ee6d","f56ab84","931dd39"); p("P08","517f7c4","2a17501")
p("P10","99ca726","9442f0b","bd882d7","668e5ed"); p("P22","baca37e"); p("P07","a8667c7")
p("P11","63ead6f","e1686d4","63f059d","9995a24","b481f3d","614ac67")
p("P01","411aa61","a9101da","cdec46b","b31a02a","4be2c1f","8be89e6","2adaea3"); p("P02","cfa793a","62a3466")
p("P03","31980b7","1734914","bca2ca2","babfe82","f726311","6bd83ef","a627a16"); p("P04","1882c7c")
p("P12","f18bef8","b5fb722"); p("P19","2592ff6","16e6340","87f3e83"); p("P18","3c8f09d","83ef34a")
p("P15","c5789b7","120be4d","9b9e396")
p("P09","2da9e8a","d55d30d","e0cbf14","17123fe","3cb0b84","7412bfb","891abdc")
p("P16","ac633b5","3a75ed3","746ec62","0925af2","15eb795","fb2a9da")
p("P20","ce25718","c22b803","0759132","007dd56","9aa4990","ba57db1","feb09c0","63aee2a","5758c81","fccaed7","1aac2a2")
p("P17","f023a49","5cce44d","334addf")
p("P21","24b78bf"); p("P03","49e7b07"); p("P05","ea1a4f0")
p("P20","d6722d6"); p("P01","2c55747","acdf667")
log = subprocess.run("git -C /repo log --reverse --format='%h %s' 8719e2f..HEAD",shell=True,capture_output=True,text=True).stdout.strip().split("\n")
lines=[]
for l in log:
    h,s=l.split(" ",1); lines.append(f"fixed: property={P[h]} {h} {s[5:]}")
f="/verif/known_findings.jsonl"
old=[l for l in open(f).read().split("\n") if l.strip() and not l.startswith("fixed:")]
open(f,"w").write("\n".join(old+lines)+"\n")
print(len(lines))
