#!/usr/bin/env python3
"""D04: attribute x position x form programs. Every group lists programs that must have equal schemas."""
import itertools, json, re
from genlib import *
progs={}; groups=[]
def prog(src):
    src=re.sub(r'\s+',' ',src).strip()
    return progs.setdefault(src,f'q{len(progs):05}')
def kw(a): return re.match(r'\w+',a).group(0)
def sd(*a): return f'#[serde({", ".join(a)})] ' if a else ''
def sm(*a): return f'#[schemars({", ".join(a)})] ' if a else ''
def un(*a): return ['!'+kw(x) for x in a]

# other values of the same keyword (for overriding)
OTHER={'rename':'rename = "zother"','rename_all':'rename_all = "UPPERCASE"','rename_all_fields':'rename_all_fields = "UPPERCASE"','default':'default = "alib::other_default"','tag':'tag = "zt"','content':'content = "zc"',
 'from':'from = "bool"','try_from':'try_from = "bool"','into':'into = "bool"','skip_serializing_if':'skip_serializing_if = "alib::never2"','remote':'remote = "alib::zzz::Zother"','with':'with = "alib::AsBool"'}
SCHEMARS_BAD=lambda a,pos: pos in('CS','CE') and a.startswith('rename(')   # a schemars container rename takes a name only
def family(tmpl,pos,attrs,hole,base,pairs,bad=(),tag='',ser_only=()):
    """tmpl: source with `hole` where the attributes go; base: attributes present in serde form throughout"""
    def P(x): return prog(tmpl.replace(hole,x))
    def ok(s):
        s=list(s)
        return not any(all(any(re.match(p+r'\b',a) for a in s) for p in b) for b in bad)
    def G(name,first,*rest):
        rest=[r for r in dict.fromkeys(rest) if r!=first]
        # a schemars `with` leaves the serialization of the default to serde: defaults may differ
        if rest: groups.append({'name':f'{tag}|{name}','progs':[first]+rest,'strip':'with =' in name and '= forms' in name})
    B=sd(base) if base else ''
    for a in attrs:
        if not ok([a]+([base] if base else [])): continue
        S=P(B+sd(a)); N=P(B)
        if base: S2=[P(sd(base,a)),P(sd(a,base)),P(sd(a)+sd(base))]
        else: S2=[]
        forms=list(S2)
        s_able=not SCHEMARS_BAD(a,pos)
        if s_able and not a.startswith('with'):
            forms+=[P(B+sm(a)),P(sm(a)+B),P(B+sd(a)+sm(a))]
            if base and not SCHEMARS_BAD(base,pos): forms+=[P(sm(base,a)),P(sm(a,base)),P(sm(base)+sd(a)),P(sd(base)+sm(a))]
            o=OTHER.get(kw(a))
            if o and o!=a:
                forms+=[P(B+sd(o)+sm(a)),P(sm(a)+B+sd(o))]
            elif a=='default': forms+=[P(B+sd(OTHER['default'])+sm(a))]
            if a=='skip':
                forms+=[P(B+sd(x)+sm(a)) for x in ('skip_serializing','skip_deserializing','skip_serializing, skip_deserializing')]
        if a.startswith('with'):
            forms+=[P(B+sm(a)),P(sm(a)+B)]
            if OTHER['with']!=a: forms.append(P(B+sd(OTHER['with'])+sm(a)))
        # an unrelated serde attribute that schemars does not know, in the same list
        if kw(a) not in ('flatten',): forms+=[P(B+sd('crate = "serde"',a) if pos[0]=='C' else B+sd(a,'alias = "zalias"') if pos in('VA','FA') else B+sd(a))]
        G(f'{a} = forms',S,*forms)
        G(f'{a} unset',N,P(B+sd(a)+sm(*un(a))),P(sm(*un(a))+B+sd(a)))
        # with other schemars attributes on the same item
        X='title = "tt", extend("x-y" = 1)'
        if 'transparent' not in a:
            SX=P(B+sd(a)+sm(X)); NX=P(B+sm(X))
            f=[P(B+sd(a)+sm('title = "tt"')+sm('extend("x-y" = 1)')),P(sm(X)+B+sd(a))]
            if s_able: f+=[P(B+sm(a,X)),P(B+sm(X,a)),P(B+sm('title = "tt"',a,'extend("x-y" = 1)'))]
            G(f'{a} = forms with others',SX,*f)
            G(f'{a} unset with others',NX,P(B+sd(a)+sm(*un(a),X)),P(B+sd(a)+sm('title = "tt"',*un(a),'extend("x-y" = 1)')),P(sm(X)+B+sd(a)+sm(*un(a))))
    if not pairs: return
    for a,b in itertools.permutations(attrs,2):
        if kw(a)==kw(b) or not ok([a,b]+([base] if base else [])): continue
        sa,sb=not SCHEMARS_BAD(a,pos),not SCHEMARS_BAD(b,pos)
        SB=P(B+sd(b))
        if a<b:
            S=P(B+sd(a,b)); f=[P(B+sd(b,a)),P(B+sd(a)+sd(b))]
            w=lambda x: False
            if sa: f+=[P(B+sd(b)+sm(a)),P(sm(a)+B+sd(b))]
            if sb: f+=[P(B+sd(a)+sm(b))]
            if sa and sb: f+=[P(B+sm(a,b)),P(B+sm(b,a)),P(sm(a)+B+sm(b))]
            G(f'{a} & {b} = forms',S,*f)
            G(f'{a} & {b} unset both',P(B),P(B+sd(a,b)+sm(*un(a,b))))
        G(f'{a} unset beside {b}',SB,P(B+sd(a,b)+sm(*un(a))),*([P(B+sd(a)+sm(*un(a),b))] if sb and not b.startswith('with') else []))

DER='#[derive(JsonSchema)] '
BADF=[('skip','skip_serializing'),('skip','skip_deserializing'),('flatten','with')]
FA=['rename = "ren"','rename(serialize = "rs", deserialize = "rd")','rename(serialize = "rs")','default','default = "alib::dflt"','skip','skip_serializing','skip_deserializing','skip_serializing_if = "alib::never"','with = "alib::AsStr"']
for ty in ('u8','Option<u8>','In'):
    A=[a.replace('alib::dflt',{'u8':'alib::seven','Option<u8>':'alib::some_seven','In':'alib::an_in'}[ty]) for a in FA]+(['flatten'] if ty!='u8' else [])
    O=dict(OTHER)
    OTHER['default']={'u8':'default = "alib::eight"','Option<u8>':'default = "alib::some_eight"','In':'default = "alib::other_in"'}[ty]
    family(DER+f'struct T {{ fo_o: u8, @F ba_r: {ty}, zz: bool }}','FA',A,'@F','',True,BADF,tag=f'field {ty}')
    family(DER+f'#[serde(rename_all = "camelCase", deny_unknown_fields)] struct T {{ @F ba_r: {ty} }}','FA',A,'@F','',False,BADF,tag=f'field in camelCase deny {ty}')
    family(DER+f'#[serde(default)] struct T {{ @F ba_r: {ty}, zz: bool }} impl Default for T {{ fn default() -> T {{ T {{ ba_r: Default::default(), zz: true }} }} }}','FA',A,'@F','',ty=='u8',BADF,tag=f'field in default {ty}')
    for t in ('','tag = "t"','tag = "t", content = "c"','untagged'):
        family(DER+f'{sd(t) if t else ""}enum T {{ Va, Vb {{ fo_o: u8, @F ba_r: {ty} }} }}','FA',A,'@F','',t in('','tag = "t"') and ty=='Option<u8>',BADF,tag=f'variant field {ty} {t}')
    T=[a for a in A if not a.startswith(('rename','flatten','skip_serializing_if'))]
    family(DER+f'struct T(u8, @F {ty});','FA',[a for a in T if a not in('skip_serializing','skip_deserializing')] if 0 else T,'@F','',False,BADF,tag=f'tuple field {ty}')
    family(DER+f'struct T(@F {ty});','FA',[a for a in T if not a.startswith('skip')],'@F','',False,BADF,tag=f'newtype field {ty}')
    for t in ('','tag = "t", content = "c"','untagged'):
        family(DER+f'{sd(t) if t else ""}enum T {{ Va, Vb(u8, @F {ty}), Vc(bool) }}','FA',[a for a in T if not a.startswith('default')],'@F','',False,BADF,tag=f'variant tuple field {ty} {t}')
    for t in ('','tag = "t"','tag = "t", content = "c"','untagged'):
        if 'tag = "t"'==t and ty!='In': continue
        family(DER+f'{sd(t) if t else ""}enum T {{ Va, Vb(@F {ty}), Vc {{ x: bool }} }}','FA',[a for a in T if not a.startswith('default')],'@F','',False,BADF,tag=f'variant newtype field {ty} {t}')
    OTHER.clear(); OTHER.update(O)
# ser-with: the schema attribute form is not taken over, but it can be unset
for a in ('serialize_with = "alib::ser_str"',):
    N=prog(DER+'struct T { #[serde(default)] x: u8 }')
    groups.append({'name':'serialize_with unset','progs':[N]+[prog(DER+x) for x in (f'struct T {{ #[serde(default, {a})] #[schemars(!serialize_with)] x: u8 }}',f'struct T {{ #[serde({a})] #[schemars(!serialize_with)] #[serde(default)] x: u8 }}',f'struct T {{ #[serde({a})] #[schemars(default, !serialize_with)] x: u8 }}')]})
    S=prog(DER+f'struct T {{ #[serde(default, {a})] x: u8 }}')
    groups.append({'name':'serialize_with = forms','progs':[S]+[prog(DER+x) for x in (f'struct T {{ #[serde({a})] #[schemars(default)] x: u8 }}',f'struct T {{ #[schemars(default)] #[serde({a})] x: u8 }}',f'struct T {{ #[serde({a}, default)] x: u8 }}')]})

VA=['rename = "ren"','rename(serialize = "rs", deserialize = "rd")','rename(deserialize = "rd")','skip','skip_serializing','skip_deserializing','untagged','with = "alib::AsStr"']
VAN=VA+['rename_all = "SCREAMING_SNAKE_CASE"','rename_all(serialize = "camelCase", deserialize = "UPPERCASE")']
BADV=[("skip","skip_serializing"),("skip","skip_deserializing"),("with","skip"),("with","skip_serializing"),("with","skip_deserializing")]
for t in ('','tag = "t"','tag = "t", content = "c"','untagged','rename_all = "kebab-case", rename_all_fields = "camelCase"','deny_unknown_fields'):
    A=lambda l:[a for a in l if not (t=='untagged' and a=='untagged')]
    # (untagged variants have to come last)
    c=sd(t) if t else ''
    family(DER+f'{c}enum T {{ Aa, Bb {{ fo_o: bool }}, @V Vc }}','VA',A(VA),'@V','',t in('','tag = "t"'),BADV,tag=f'unit variant {t}')
    family(DER+f'{c}enum T {{ Aa, Bb {{ fo_o: bool }}, @V Vc {{ ba_r: u8 }} }}','VA',A(VAN),'@V','',t in('','tag = "t"'),BADV,tag=f'struct variant {t}')
    family(DER+f'{c}enum T {{ Aa, Bb {{ fo_o: bool }}, @V Vc(In) }}','VA',A(VA),'@V','',False,BADV,tag=f'newtype variant {t}')
    if t!='tag = "t"': family(DER+f'{c}enum T {{ Aa, Bb {{ fo_o: bool }}, @V Vc(u8, bool) }}','VA',A(VA),'@V','',False,BADV,tag=f'tuple variant {t}')

CS=['rename = "Ren"','rename(serialize = "Rs", deserialize = "Rd")','rename_all = "camelCase"','rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "kebab-case")','deny_unknown_fields','default','default = "mk"','from = "u8"','try_from = "In"','into = "String"','remote = "alib::other::Rem"','tag = "t"']
BADC=[('from','try_from'),('rename','remote'),('tag','from'),('tag','try_from'),('tag','into')]
DI=' impl Default for T { fn default() -> T { mk() } } '
OTHER['default']='default = "mk2"'
family(DER+'@C struct T { fo_o: u8, ba_r: Option<u8> }'+DI+'fn mk() -> T { T { fo_o: 3, ba_r: None } } fn mk2() -> T { T { fo_o: 9, ba_r: Some(1) } }','CS',CS,'@C','',True,BADC,tag='struct')
family(DER+'@C struct T(u8, Option<In>);'+DI+'fn mk() -> T { T(3, None) } fn mk2() -> T { T(9, None) }','CS',[a for a in CS if not a.startswith(('rename_all','deny','tag'))],'@C','',False,BADC,tag='tuple struct')
NT=[a for a in CS if not a.startswith(('rename_all','deny','tag','default'))]+['transparent']
family(DER+'@C struct T(Option<In>);','CS',NT,'@C','',True,BADC+[('transparent','from'),('transparent','try_from'),('transparent','into')],tag='newtype struct')
family(DER+'@C struct T { fo_o: Option<In> }','CS',NT+['deny_unknown_fields'],'@C','',True,BADC+[('transparent','from'),('transparent','try_from'),('transparent','into')],tag='one-field struct')
family(DER+'@C struct T;','CS',['rename = "Ren"','from = "u8"','try_from = "In"','into = "String"','deny_unknown_fields'],'@C','',True,BADC,tag='unit struct')
CE=['rename = "Ren"','rename_all = "snake_case"','rename_all(serialize = "UPPERCASE", deserialize = "kebab-case")','rename_all_fields = "camelCase"','rename_all_fields(serialize = "UPPERCASE", deserialize = "kebab-case")','deny_unknown_fields','tag = "t"','untagged','from = "u8"','try_from = "In"','into = "String"','remote = "alib::other::Rem"']
BADE=BADC+[('tag','untagged')]
family(DER+'@C enum T { Aa, BbCc { fo_o: u8, ba_r: Option<u8> }, Dd(In) }','CE',CE,'@C','',True,BADE,tag='enum')
family(DER+'@C enum T { Aa, BbCc { fo_o: u8 }, Dd(u8, bool) }','CE',[a for a in CE if a!='tag = "t"']+['content = "c"'] if 0 else [a for a in CE if not a.startswith(('tag','untagged'))],'@C','tag = "t", content = "c"',True,BADC,tag='adjacent enum')
family(DER+'@C enum T { Aa, BbCc { fo_o: u8 }, Dd(In) }','CE',['content = "c"','rename_all = "snake_case"','deny_unknown_fields'],'@C','tag = "t"',True,BADC,tag='internal enum')

# several attributes unset at once, at every level of one type
for bits in range(32):
    on=lambda i: bits>>i&1
    S=lambda i,a: '' if on(i) else sd(a)
    U=lambda i,a: sd(a)+(sm(*un(a)) if on(i) else '')
    src=DER+'{0}struct T {{ {1}fo_o: u8, {2}ba_r: Option<u8>, {3}{4}zz: In }}'
    AT=[(0,'rename_all = "camelCase"'),(1,'skip'),(2,'default'),(3,'rename = "q"'),(4,'flatten')]
    groups.append({'name':f'unset set {bits}','progs':[prog(src.format(*[S(*x) for x in AT])),prog(src.format(*[U(*x) for x in AT]))]})
    src=DER+'{0}enum T {{ {1}Aa, {2}BbCc {{ {3}fo_o: u8 }}, {4}Dd(In) }}'
    AT=[(0,'tag = "t"'),(1,'rename = "q"'),(2,'rename_all = "UPPERCASE"'),(3,'default'),(4,'skip_deserializing')]
    groups.append({'name':f'unset enum set {bits}','progs':[prog(src.format(*[S(*x) for x in AT])),prog(src.format(*[U(*x) for x in AT]))]})
    M=lambda i,a: (sm if on(i) else sd)(a)
    groups.append({'name':f'mixed enum set {bits}','progs':[prog(src.format(*[sd(a) for i,a in AT])),prog(src.format(*[M(*x) for x in AT]))]})

seen=set(); gs=[]
for g in groups:
    g['progs']=list(dict.fromkeys(g['progs']))
    if len(g['progs'])>1: gs.append(g)
used={p for g in gs for p in g['progs']}
n=emit('q',8,[(i,s) for s,i in progs.items() if i in used],header='use schemars::JsonSchema; use alib::*;')
write(f'{OUT}/d04.json',json.dumps(gs))
print(n,'programs',len(gs),'groups')
