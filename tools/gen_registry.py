#!/usr/bin/env python3
"""Writes harness/registry_gen.go: every exported constructor of the four packages, by name and shape.
Run by hand when the API of aitch changes; the result is committed."""
import re,glob,os
out=["// Code generated by tools/gen_registry.py; committed.","package main","",'import (','\t"github.com/go-andiamo/aitch"','\t"github.com/go-andiamo/aitch/css"','\t"github.com/go-andiamo/aitch/html"','\t"github.com/go-andiamo/aitch/htmx"','\t"github.com/go-andiamo/aitch/svg"',')','']
shapes={'any':[], 'none':[], 'named':[], 'unit':[]}
for pk in ('html','svg','css','htmx'):
    for f in sorted(glob.glob(f'/repo/{pk}/*.go')):
        if f.endswith('_test.go'): continue
        for m in re.finditer(r'^func ([A-Z]\w*)(\(.*\) \S+) \{',open(f).read(),re.M):
            n,sig=m.groups()
            k=None
            if re.match(r'\((contents|value) \.\.\.any\) aitch\.Node$',sig): k='any'
            elif sig=='() aitch.Node': k='none'
            elif re.match(r'\(\w+ string, \w+ \.\.\.any\) aitch\.Node$',sig): k='named'
            elif sig=='(value ...any) aitch.Value': k='unit'
            if k: shapes[k].append(f'{pk}.{n}')
            else: print('special',pk,n,sig)
types={'any':'func(...any) aitch.Node','none':'func() aitch.Node','named':'func(string, ...any) aitch.Node','unit':'func(...any) aitch.Value'}
for k,v in shapes.items():
    out.append(f'var reg_{k} = map[string]{types[k]}{{')
    for n in sorted(v): out.append(f'\t"{n}": {n},')
    out.append('}\n')
open('/verif/harness/registry_gen.go','w').write('\n'.join(out))
print({k:len(v) for k,v in shapes.items()})
