# generates fam.go: uniform access to the function families
out=[]
w=out.append
w('''//go:build go1.21

// Code generated by tools/gen_fam.py; DO NOT EDIT.

package h

import (
	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/sequential"
	"github.com/exascience/pargo/speculative"
)

// V is the result of one function in all result types.
type V struct {
	x interface{}
	i int
	f float64
	s string
	b bool
}

// J joins results of the given result type.
type J struct {
	x func(a, b interface{}) interface{}
	i func(a, b int) int
	f func(a, b float64) float64
	s func(a, b string) string
}
''')
thunk=[('Do',None),('And','b'),('Or','b'),('Reduce','x'),('ReduceInt','i'),('ReduceIntSum','i'),('ReduceIntProduct','i'),('ReduceFloat64','f'),('ReduceFloat64Sum','f'),('ReduceFloat64Product','f'),('ReduceString','s'),('ReduceStringSum','s')]
rng=[('Range',None),('RangeAnd','b'),('RangeOr','b'),('RangeReduce','x'),('RangeReduceInt','i'),('RangeReduceIntSum','i'),('RangeReduceIntProduct','i'),('RangeReduceFloat64','f'),('RangeReduceFloat64Sum','f'),('RangeReduceFloat64Product','f'),('RangeReduceString','s'),('RangeReduceStringSum','s')]
T={'b':'bool','x':'interface{}','i':'int','f':'float64','s':'string'}
w('const (')
names=[n for n,_ in thunk]+[n for n,_ in rng]
for k,n in enumerate(names):
    w('\tf%s%s'%(n,' = iota' if k==0 else ''))
w('\tnFuncs\n)\n')
w('var funcNames = [...]string{'+', '.join('"%s"'%n for n in names)+'}\n')
w('func isRange(fn int) bool { return fn >= fRange }\n')
w('// needsOne tells whether fn takes at least one function.')
w('func needsOne(fn int) bool { return fn == fReduce || fn == fReduceInt || fn == fReduceFloat64 || fn == fReduceString || isRange(fn) }\n')
for pkg in ['parallel','sequential']:
    w('// call%s calls function fn of package %s; thunk i is body(i, i+1), a range is [lo, lo+n).'%(pkg.capitalize(),pkg))
    w('func call%s(fn, lo, hi, n int, body func(lo, hi int) V, j J) (r V) {'%pkg.capitalize())
    w('\tswitch fn {')
    for nm,t in thunk:
        w('\tcase f%s:'%nm)
        rt=' '+T[t] if t else ''
        w('\t\tfs := make([]func()%s, n)'%rt)
        w('\t\tfor i := range fs {\n\t\t\ti := i')
        if t: w('\t\t\tfs[i] = func() %s { return body(i, i+1).%s }'%(T[t],t))
        else: w('\t\t\tfs[i] = func() { body(i, i+1) }')
        w('\t\t}')
        if t is None: w('\t\t%s.%s(fs...)'%(pkg,nm))
        elif nm in('Reduce','ReduceInt','ReduceFloat64','ReduceString'): w('\t\tr.%s = %s.%s(j.%s, fs[0], fs[1:]...)'%(t,pkg,nm,t))
        else: w('\t\tr.%s = %s.%s(fs...)'%(t,pkg,nm))
    for nm,t in rng:
        w('\tcase f%s:'%nm)
        j=', j.'+t if nm in('RangeReduce','RangeReduceInt','RangeReduceFloat64','RangeReduceString') else ''
        if t is None: w('\t\t%s.%s(lo, hi, n, func(lo, hi int) { body(lo, hi) })'%(pkg,nm))
        else: w('\t\tr.%s = %s.%s(lo, hi, n, func(lo, hi int) %s { return body(lo, hi).%s }%s)'%(t,pkg,nm,T[t],t,j))
    w('\t}\n\treturn\n}\n')
# speculative
sth=[('Do','b'),('And','b'),('Or','b'),('Reduce','x'),('ReduceInt','i'),('ReduceFloat64','f'),('ReduceString','s')]
srn=[('Range','b'),('RangeAnd','b'),('RangeOr','b'),('RangeReduce','x'),('RangeReduceInt','i'),('RangeReduceFloat64','f'),('RangeReduceString','s')]
w('// JS joins results of speculative functions.\ntype JS struct {')
for t in 'xifs': w('\t%s func(a, b %s) (%s, bool)'%(t,T[t],T[t]))
w('}\n')
w('var specFuncs = [...]int{'+', '.join('f'+n for n,_ in sth+srn)+'}\n')
w('// callSpec calls function fn of package speculative. The body tells whether it decides.')
w('func callSpec(fn, lo, hi, n int, body func(lo, hi int) (V, bool), j JS) (r V, dec bool) {')
w('\tswitch fn {')
for nm,t in sth:
    w('\tcase f%s:'%nm)
    if t=='b':
        w('\t\tfs := make([]func() bool, n)\n\t\tfor i := range fs {\n\t\t\ti := i')
        neg='!' if nm=='And' else ''
        w('\t\t\tfs[i] = func() bool { _, d := body(i, i+1); return %sd }'%neg)
        w('\t\t}')
        w('\t\tr.b = speculative.%s(fs...)\n\t\tdec = %sr.b'%(nm,neg))
    else:
        w('\t\tfs := make([]func() (%s, bool), n)\n\t\tfor i := range fs {\n\t\t\ti := i'%T[t])
        w('\t\t\tfs[i] = func() (%s, bool) { v, d := body(i, i+1); return v.%s, d }'%(T[t],t))
        w('\t\t}')
        w('\t\tr.%s, dec = speculative.%s(j.%s, fs[0], fs[1:]...)'%(t,nm,t))
for nm,t in srn:
    w('\tcase f%s:'%nm)
    if t=='b':
        neg='!' if nm=='RangeAnd' else ''
        w('\t\tr.b = speculative.%s(lo, hi, n, func(lo, hi int) bool { _, d := body(lo, hi); return %sd })\n\t\tdec = %sr.b'%(nm,neg,neg))
    else:
        w('\t\tr.%s, dec = speculative.%s(lo, hi, n, func(lo, hi int) (%s, bool) { v, d := body(lo, hi); return v.%s, d }, j.%s)'%(t,nm,T[t],t,t))
w('\t}\n\treturn\n}\n')

# sync.Map
w('// callMap calls traversal, predicate or reduction fn of m: kind 0 sequential, 1 parallel, 2 speculative.')
w('// The body gets the index in the entry it finds; a split holds one entry.')
w('func callMap(kind, fn int, m *psync.Map, body func(i int) (V, bool), j J, js JS) (r V, dec bool) {')
w('\tswitch kind*nFuncs + fn {')
for kind,pre in enumerate(['','Parallel','Speculative']):
    w('\tcase %d*nFuncs + fDo:'%kind)
    if kind==1: w('\t\tm.ParallelRange(func(k, v interface{}) { body(v.(int)) })')
    else: w('\t\tm.%sRange(func(k, v interface{}) bool { _, d := body(v.(int)); return !d })'%pre)
    for nm in ['And','Or']:
        w('\tcase %d*nFuncs + f%s:'%(kind,nm))
        if kind<2: w('\t\tr.b = m.%s%s(func(s map[interface{}]interface{}) bool { v, _ := body(splitIndex(s)); return v.b })'%(pre,nm))
        else:
            neg='!' if nm=='And' else ''
            w('\t\tr.b = m.%s%s(func(s map[interface{}]interface{}) bool { _, d := body(splitIndex(s)); return %sd })'%(pre,nm,neg))
            w('\t\tdec = %sr.b'%neg)
    for nm,t in thunk[3:]:
        if kind==2 and (nm.endswith('Sum') or nm.endswith('Product')): continue
        w('\tcase %d*nFuncs + f%s:'%(kind,nm))
        hasj = nm in('Reduce','ReduceInt','ReduceFloat64','ReduceString')
        if kind<2:
            w('\t\tr.%s = m.%s%s(func(s map[interface{}]interface{}) %s { v, _ := body(splitIndex(s)); return v.%s }%s)'%(t,pre,nm,T[t],t,', j.'+t if hasj else ''))
        else:
            w('\t\tr.%s, dec = m.%s%s(func(s map[interface{}]interface{}) (%s, bool) { v, d := body(splitIndex(s)); return v.%s, d }, js.%s)'%(t,pre,nm,T[t],t,t))
w('\tdefault:\n\t\tsym.Fail("no such function")\n\t}\n\treturn\n}\n')
s0='\n'.join(out)
s0=s0.replace('"github.com/exascience/pargo/speculative"\n','"github.com/exascience/pargo/speculative"\n\tpsync "github.com/exascience/pargo/sync"\n\t"github.com/exascience/pargo/zz_verif/sym"\n')
open('/verif/harness/h/fam.go','w').write(s0)
