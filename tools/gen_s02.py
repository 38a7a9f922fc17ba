#!/usr/bin/env python3
"""S02: programs whose fields are declared in every order of their names, with the order their properties have to have."""
import itertools, json
from genlib import *
PROGS=[]
def prog(gid,src,seqs):
    s='&['+', '.join('&['+', '.join(json.dumps(x,ensure_ascii=False) for x in q)+']' for q in seqs)+']'
    src=src.replace('#[D]','#[derive(JsonSchema)]')
    PROGS.append((gid,src,f'olib::entry::<T>({rs(gid)}, {rs(src)}, {s})'))
# what a field can be: (attribute, type, property names it contributes given its own name)
own=lambda n:[n]
KIND={
 'plain':('','u8',own),
 'option':('','Option<Inner>',own),
 'struct':('','Inner',own),
 'default':('#[serde(default)] ','u8',own),
 'rename':('#[serde(rename = "@~")] ','u8',lambda n:[n+'~']),
 'skip ser':('#[serde(skip_serializing)] ','u8',own),
 'skip de':('#[serde(skip_deserializing)] ','Vec<Inner>',own),
 'skip':('#[serde(skip)] ','u8',lambda n:[]),
 'doc':('/** doc */ #[schemars(title = "t", example = 1, extend("a" = 1))] ','u8',own),
 'required':('#[validate(required)] ','Option<u8>',own),
 'flat':('#[serde(flatten)] ','Inner',lambda n:['in_z','in_y','in_x']),
 'flat option':('#[serde(flatten)] ','Option<Other>',lambda n:['ot_m','ot_a','ot_k']),
 'flat nested':('#[serde(flatten)] ','Nest',lambda n:['ne_z','dp_r','dp_b','ne_a']),
 'flat box':('#[serde(flatten)] ','Box<Gen<bool>>',lambda n:['gn_k','gn_c']),
 'flat map':('#[serde(flatten)] ','std::collections::BTreeMap<String, u8>',lambda n:[]),
 'flat ext':('#[serde(flatten)] ','Ext',lambda n:[]),
 'flat ext2':('#[serde(flatten)] ','Option<Ext2>',lambda n:[]),
 'flat unt':('#[serde(flatten)] ','Unt',lambda n:[]),
 'flat int':('#[serde(flatten)] ','Int',lambda n:[]),
 'flat two':('#[serde(flatten)] ','Two',lambda n:['tw_k']),
 'flat three':('#[serde(flatten)] ','Three',lambda n:['th_z','th_a']),
 'flat value':('#[serde(flatten)] ','serde_json::Value',lambda n:[]),
 'flat skip ser':('#[serde(flatten, skip_serializing)] ','Skip',lambda n:['sk_z','sk_a']),
 'flat with':('#[serde(flatten)] #[schemars(with = "With")] ','()',lambda n:['wi_p','wi_d']),
}
COMMON='''
#[D] struct Inner { in_z: u8, in_y: u8, in_x: Option<u8> }
#[D] struct Other { ot_m: u8, ot_a: u8, ot_k: u8 }
#[D] struct Deep { dp_r: u8, dp_b: u8 }
#[D] struct Nest { ne_z: u8, #[serde(flatten)] d: Deep, ne_a: u8 }
#[D] struct Gen<P> { gn_k: P, gn_c: u8 }
#[D] enum Ext { ZA { ea_z: u8, ea_a: u8 }, Za(u8) }
#[D] enum Ext2 { YA { eb_z: u8, eb_a: u8 }, YB(Inner) }
#[D] #[serde(untagged)] enum Unt { A { ua_z: u8, ua_a: u8 }, B { ub_z: u8, ub_b: Inner } }
#[D] #[serde(tag = "kind")] enum Int { A { ia_z: u8, ia_a: u8 }, B(Other) }
#[D] struct Two { tw_k: u8, #[serde(flatten)] a: Ext, #[serde(flatten)] b: Ext2 }
#[D] struct Three { th_z: u8, #[serde(flatten)] a: Unt, #[serde(flatten)] b: Ext, #[serde(flatten)] c: Ext2, th_a: u8 }
#[D] struct Skip { sk_z: u8, sk_a: u8 }
#[D] struct With { wi_p: u8, wi_d: u8 }
'''
CSEQ=[['in_z','in_y','in_x'],['ot_m','ot_a','ot_k'],['dp_r','dp_b'],['ne_z','dp_r','dp_b','ne_a'],['gn_k','gn_c'],['ea_z','ea_a'],['eb_z','eb_a'],['ua_z','ua_a'],['ub_z','ub_b'],['ia_z','ia_a'],['th_z','th_a'],['sk_z','sk_a'],['wi_p','wi_d'],['ZA','Za'],['YA','YB'],['A','B']][:13]
HEADER='use schemars::JsonSchema; use crate::common::*;'
def fields(kinds,names):
    out=[];seq=[]
    for k,n in zip(kinds,names):
        a,t,f=KIND[k]
        out.append(f'{a.replace("@",n)}{n}: {t}')
        seq+=f(n)
    return ', '.join(out),seq
ks=list(KIND)
NAMES=[('z','m','a','f'),('m','z','a','b'),('k2','k10','k1','k')]
def clash(kinds): # kinds whose properties would meet
    fl=[k for k in kinds if k.startswith('flat')]; f=set(fl)
    return len(f)<len(fl) or any(len(f&c)>1 for c in ({'flat two','flat ext','flat three'},{'flat two','flat ext2','flat three'},{'flat three','flat unt'}))
def structs(combos,namings):
    for kinds in combos:
        if clash(kinds): continue
        for names in namings:
            body,seq=fields(kinds,names)
            prog(f's/{"/".join(kinds)}/{"".join(names)}','#[D] pub struct T { '+body+' }',[seq])
structs(((k,) for k in ks),NAMES)
structs((('plain',a,b,'plain') for a in ks for b in ks),NAMES)
structs(itertools.product([k for k in ks if k.startswith('flat')],repeat=3),NAMES[:1])
# every order of four and five plain names
W5=['b','B','a1','é','_c']
for p in itertools.permutations(W5):
    prog('p/'+''.join(p),'#[D] pub struct T { '+', '.join(f'#[serde(rename = "{n}")] f{i}: u8' for i,n in enumerate(p))+' }',[p])
# names that are keywords
for i,w in enumerate((['type','title','a','$defs'],['properties','zz','$schema','format'],['description','$id','definitions','b'],['patternProperties','items','const','allOf'],['default','required','enum','$ref'])):
    for p in itertools.permutations(w):
        f=', '.join(f'#[serde(rename = "{n}")] f{i}: u8' for i,n in enumerate(p))
        prog(f'k{i}/'+'/'.join(p),'#[D] pub struct T { '+f+' }',[p])
        prog(f'kd{i}/'+'/'.join(p),'#[D] #[schemars(example = vec![N::default()], extend("x-n" = N::default()))] pub struct T { #[serde(default)] n: N, #[serde(default)] m: M } #[derive(JsonSchema, Default, serde::Serialize)] pub struct N { '+f+' } #[derive(JsonSchema, Default, serde::Serialize)] #[serde(default)] pub struct M { n: N, v: Option<Box<M>> }',[p])
        prog(f'kn{i}/'+'/'.join(p),'#[D] pub struct T { n: N, v: Vec<Option<V>> } #[D] pub struct N { '+f+' } #[D] #[serde(untagged)] enum V { A { '+f+' } }',[p])
        prog(f'kf{i}/'+'/'.join(p),'#[D] #[serde(deny_unknown_fields)] pub struct T { zq: u8, #[serde(flatten)] v: V, #[serde(flatten)] n: N } #[D] pub struct N { '+f+' } #[D] #[serde(untagged)] enum V { A { '+f.replace('rename = "','rename = "v')+' } }',[['zq']+list(p),['v'+n for n in p]])
for p in itertools.permutations(['c','b','a']):
    f=lambda pre='': ', '.join(f'{pre}{n}: u8' for n in p)
    prog('e/'+''.join(p),'#[D] pub enum T { V { '+f()+' }, W { '+', '.join(f'r{n}: Inner' for n in p)+' } }',[p,['r'+n for n in p]])
    prog('ei/'+''.join(p),'#[D] #[serde(tag = "bb")] pub enum T { V { '+f()+' }, N(Nest), W { '+', '.join(f'r{n}: u8' for n in p)+' } }',[p,['r'+n for n in p]])
    prog('ea/'+''.join(p),'#[D] #[serde(tag = "t", content = "c")] pub enum T { V { '+f()+' }, N(Nest) }',[p])
    prog('eu/'+''.join(p),'#[D] #[serde(untagged)] pub enum T { V { '+f()+' }, N(Nest) }',[p])
    prog('er/'+''.join(p),'#[D] #[serde(rename_all_fields = "UPPERCASE", rename_all = "lowercase")] #[schemars(_unstable_ref_variants)] pub enum T { V { '+f()+' }, N(Nest) }',[[n.upper() for n in p]])
    prog('st/'+''.join(p),'#[D] #[serde(tag = "bb")] pub struct T { '+f()+' }',[p])
    prog('sd/'+''.join(p),'#[D] #[serde(deny_unknown_fields)] pub struct T { '+f()+' }',[p])
    prog('sdf/'+''.join(p),'#[D] pub struct T { #[serde(flatten)] f: S, zz: u8 } #[D] #[serde(deny_unknown_fields)] pub struct S { '+f()+' }',[list(p)+['zz']])
    prog('sc/'+''.join(p),'#[derive(JsonSchema, Default, serde::Serialize)] #[serde(default)] pub struct T { '+f()+' }',[p])
    prog('nt/'+''.join(p),'#[D] #[schemars(title = "x")] pub struct T(S); #[D] pub struct S { '+f()+' }',[p])
    prog('tr/'+''.join(p),'#[D] #[serde(transparent)] pub struct T { /** doc */ s: S } #[D] pub struct S { '+f()+' }',[p])
    prog('cx/'+''.join(p),'#[D] #[schemars(extend("x-a" = 1, "required" = ["q"]), transform = olib::restrict)] pub struct T { '+f()+' }',[p])
    prog('rem/'+''.join(p),'pub struct R { '+', '.join(f'pub {n}: u8' for n in p)+' } #[D] #[serde(remote = "R")] pub struct T { '+f()+' }',[p])
    prog('defs/'+''.join(p),'#[D] pub struct T { '+', '.join(f'f{n}: D{n}' for n in p)+' } '+' '.join(f'#[D] pub struct D{n} {{ '+f(n)+' }' for n in 'cab'),[['f'+n for n in p]]+[[m+n for n in p] for m in 'abc'])
    prog('rec/'+''.join(p),'#[D] pub struct T { '+', '.join(f'{n}: Option<Box<T>>' for n in p)+', q: Vec<T>, #[serde(flatten)] m: std::collections::HashMap<String, T> }',[list(p)+['q']])
for n,(ty,s) in {'Range':('std::ops::Range<u8>',['start','end']),'Inclusive':('std::ops::RangeInclusive<u8>',['start','end']),'From':('(std::time::Duration, std::time::SystemTime)',['secs','nanos']),'time':('std::time::SystemTime',['secs_since_epoch','nanos_since_epoch']),'Result':('Result<Inner, Nest>',['Err']),'Bound':('std::ops::Bound<Inner>',['Included'])}.items():
    prog('b/'+n,f'pub type T = {ty};',[s])
COMMONSRC='pub mod common { use schemars::JsonSchema;'+COMMON.replace('#[D]','#[derive(JsonSchema)]').replace(' struct ',' pub struct ').replace(' enum ',' pub enum ')+' }\n'
# the global order of the common types is known everywhere
cs=', '.join('&['+', '.join(json.dumps(x) for x in q)+']' for q in CSEQ)
PROGS=[(a,b,c.replace(', &[&[',f', &[{cs}, &[',1)) for a,b,c in PROGS]
n=emit('o',4,PROGS,header=HEADER,lib='olib',ty='olib::Entry',features=())
for i in range(4):
    p=f'{OUT}/o{i}/src/lib.rs'; s=open(p).read()
    write(p,s.replace('#![allow(warnings)]','#![allow(warnings)]\n'+COMMONSRC,1))
print(n)
