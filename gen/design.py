#!/usr/bin/env python3
"""Assembles DESIGN.md from gen/design.md, the texts below, the evidence of the
last quick runs, known_findings.txt and gen/matrix.txt."""
import json,re,os
V='/verif'
T={
'C01':"Every column of small length over the values and missing, with every threshold / left set (including categories that never occur, wide sets above 64 categories, `big.Int` codes), every case list. Five ways of applying the split are compared case by case with the definition.",
'C02':"Every small column against every small response for each of 16 target types; the reference evaluates *every* threshold by the definition of the decrease. Extra scenarios: long columns with every run-length pattern of ties; near ties, adjacent floats, overflow, infinities; every answer of the random source for random thresholds (admissible, honest, and each admissible threshold reachable). Clean and dirty scratch space, whole data and nodes.",
'C03':"As C02 with subsets of categories: all subsets by definition for exhaustive search, one-step optimality for greedy search, validity and honesty for random search; 2 to 66 categories across every representation switch.",
'C04':"Every response and every sequence of batch moves from right to left, each target type: after every move the running value against the definition from scratch.",
'C05':"Every response and case list (with repetition), each target type, costs and values over many orders of magnitude: impurity and prediction against textbook formulas; column statistics, density, transduction.",
'C06':"Stub features with chosen gains isolate the search; every answer of the random source, with exact probability where the distribution is claimed; then node/child/sibling sequences (constants bookkeeping), vetting (every permutation of the contrast), out of bag evaluation on real features, and GrowRandomForest's own out of bag evaluation.",
'C07':"Every response, settings and random answers within bounds; the grown tree is walked with its training cases by definition. Reuse of a used tree against a fresh one; jungles (merged nodes); random thresholds.",
'C08':"Every tree up to a depth over every split type and missing branch, on data with each combination of values; four forms (in memory, stripped codes, reordered features, recoded categories) must all vote as the definition routes.",
'C09':"Every tree shape up to a size, every number and every name within an alphabet of awkward characters, forests with and without headers; write, read, compare structures. The findings of C09 (names that the format cannot hold) are listed by class of name; anything else is reported.",
'C10':"Every small table in either orientation with every token of an alphabet per cell, 5 layouts; the oracle is the table the text was generated from. Write and read back selections.",
'C11':"The same for ARFF (declarations, header styles, layouts) and libsvm (absent, zero, skipped indices), and the writers: encodings recomputed separately from the table.",
'C12':"Every sequence of votes in every order; tallies and errors by definition in rationals/floats. Map iteration order is repeated since it cannot be controlled.",
'C13':"Every schedule (bounded preemptions) of small programs of concurrent operations on boxes, means, counters and trees; linearizability against a sequential specification (some order of the operations consistent with real time explains all answers), no deadlock, no data race.",
'C14':"growforest's real main, every schedule within the bound (delay bounded), several thread counts and flags; every tree traced: it must be the tree grown alone from the same sample and answers, and all files and printed errors must follow from the traced trees.",
'C15':"Every response with every sequence of partitions for Boost; weights, residuals, weights of trees recomputed from the documented scheme at every step; forests boosted by GrowRandomForest and growforest evaluated against the stored intercept and trees.",
'C16':"All answers of the random source with exact rational probability: every sampler's distribution is computed and must equal the documented one exactly; growforest's bags by tracing.",
'C17':"Every sequence of operations up to a depth on a column and copies of it, against a plain list of optional values.",
'C18':"Every small column with every derivation; compare with the documented result, then mutate either side in every way and require the other unchanged; whole matrices, contrasts (every answer of the random source), imputation, written cases.",
'C19':"nfold's real main, every answer of the random source (partition, or exact probability for fairness), every small target incl. missing classes, all formats and options.",
'C20':"applyforest's real main on every small forest and data set; every output recomputed by hand evaluation of the file; and the pipeline growforest, save, applyforest, including growforest -test on other data.",
'C21':"Every weak ordering of up to 8 (9) items, every ternary word, structured families around each size at which the code changes algorithm, and adversarial inputs that force the heap sort fallback.",
'C22':"Every pair of small samples over a grid and shifted/swapped; reference integrates the t density numerically; every order of the updates.",
'C23':"Every grown tree is walked with its cases and each accepted decrease recomputed; importance accumulators, counts and minimal depth by definition, also through growforest's importance file.",
'C24':"leafcount's real main under every schedule within bounds with the race detector; all small forests and matrices; the three outputs recomputed by hand.",
'C25':"growforest's main with every blacklist, expressions, contrasts, ACE (significance recomputed by the reference Welch test on importances measured per forest); every tree traced for its candidates; reachability of each candidate.",
'C26':"Training twice, with and without the cases lacking a target, under corresponding random answers; every sample traced, every output compared.",
'C27':"toafm's real main on every small table in each format and every combination of options; every tree up to depth 3 exported to scikit-learn's layout and routed; growforest's exported forests.",
}
EXTRA=f'{V}/gen/design_extra.json'
if os.path.exists(EXTRA): T.update(json.load(open(EXTRA)))
props=[json.loads(l) for l in open(f'{V}/properties.jsonl')]
out=[]
for p in props:
    i=p['id']
    out.append(f"### {i} {p.get('title','')}\n\n{T[i]}\n")
    e=f'{V}/evidence/{i}.json'
    src=open(f'{V}/mc/props/{i.lower()}/main.go').read()
    a=re.search(r'Assumptions:\s+\[\]string\{(.*?)\},\n',src,re.S)
    if a:
        out.append("Assumptions: "+"; ".join(x for x in re.findall(r'"((?:[^"\\]|\\.)*)"',a.group(1)))+".\n")
    if os.path.exists(e):
        d=json.load(open(e))
        seen={}
        for s in d['coverage']['scenarios']:
            seen.setdefault(s['bound'],[]).append(s)
        for b,ss in seen.items():
            names=", ".join(s['name'] for s in ss)
            out.append(f"* *{names}*: {b}. {sum(s['executions'] for s in ss)} executions")
        out.append('')
kf=open(f'{V}/known_findings.txt').read().split('\n')
fx=[l for l in kf if l.startswith('fixed:')]; fi=[l for l in kf if l.startswith('finding:')]
D=f"{len(fx)} defects were found by the checks and repaired by `fix:` commits in /repo (each with the commit in `known_findings.txt`):\n\n"
for l in fx:
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l); D+=f"* {m.group(1)}: {m.group(3)} ({m.group(2)})\n"
D+=f"\n{len(fi)} are recorded as findings, because repairing them needs a change of a file format:\n\n"
for l in fi:
    m=re.match(r'finding: property=(\S+) key=(\S+) (.*)',l); D+=f"* {m.group(1)} `{m.group(2)}`: {m.group(3)}\n"
M=''
if os.path.exists(f'{V}/gen/matrix.txt'):
    res=dict(l.split()[:2][::-1] for l in open(f'{V}/gen/matrix.txt') if l.strip())
    M="| planted bug | needs | check | outcome |\n|---|---|---|---|\n"
    for s in sorted(os.listdir(f'{V}/seeded')):
        m=json.load(open(f'{V}/seeded/{s}/meta.json'))
        M+=f"| {s} | {m['needs']} | {m['property']} | {res.get(s,'?')} |\n"
mut=f'{V}/gen/mutation.md'
U='\n'+open(mut).read() if os.path.exists(mut) else ''
t=open(f'{V}/gen/design.md').read()
t=t.replace('@@PROPS@@','\n'.join(out)).replace('@@DEFECTS@@',D).replace('@@MATRIX@@',M).replace('@@MUTATION@@',U)
open(f'{V}/DESIGN.md','w').write(t)
print(len(t))
