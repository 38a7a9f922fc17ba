#!/usr/bin/env python3
"""D07: attribute items in every form and place, well- and ill-formed, and type definitions of every shape."""
import itertools, json, re
from genlib import *
progs={}
def prog(group,src,expect,needle=None):
    """expect: ok (compiles), reject (the macro reports an error), nopanic (either)"""
    src=src.strip()
    if src in progs and progs[src][1]!=expect:
        # the stronger expectation wins; contradictions are mistakes of this file
        a,b=progs[src][1],expect
        assert 'nopanic' in (a,b),(src,a,b)
        if expect=='nopanic': return
    progs[src]=(group,expect,needle)
D='#[derive(JsonSchema)] '
PLACES={
 'S':D+'@ struct T { a: u8, b: Option<String> } impl Default for T { fn default() -> T { T { a: 1, b: None } } }',
 'S1':D+'@ struct T { a: In }',
 'ST':D+'@ struct T(u8, bool); impl Default for T { fn default() -> T { T(1, true) } }',
 'SN':D+'@ struct T(In);',
 'SU':D+'@ struct T;',
 'E':D+'@ enum T { U, V { a: u8 }, N(In) }',
 'VU':D+'enum T { A, @ V }','VN':D+'enum T { A, @ V(In) }','VS':D+'enum T { A, @ V { a: u8 } }','VT':D+'enum T { A, @ V(u8, bool) }',
 'VUi':D+'#[serde(tag = "t")] enum T { A, @ V }','VSa':D+'#[serde(tag = "t", content = "c")] enum T { A, @ V { a: u8 } }','VNu':D+'#[serde(untagged)] enum T { A, @ V(In) }',
 'FS':D+'struct T { @ a: String, b: u8 }','FO':D+'struct T { @ a: Option<String>, b: u8 }','FV':D+'struct T { b: u8, @ a: Vec<String> }','FU':D+'struct T { @ a: u8 }','FI':D+'struct T { b: u8, @ a: In }',
 'FT':D+'struct T(u8, @ String);','FN':D+'struct T(@ String);','FX':D+'enum T { A, V { @ a: String } }','FY':D+'enum T { A, V(@ String) }','FZ':D+'#[serde(tag = "t", content = "c")] enum T { A, V(u8, @ Vec<String>) }',
}
kind=lambda p: 'container' if p[0] in 'SE' else 'variant' if p[0]=='V' else 'field'
STRF=['FS','FO','FT','FN','FX','FY']     # places with string schemas
NAMED=['FS','FO','FV','FU','FI','FX']
ALLC=[p for p in PLACES if kind(p)=='container']; ALLV=[p for p in PLACES if kind(p)=='variant']; ALLF=[p for p in PLACES if kind(p)=='field']
ALL=list(PLACES)
# well-formed items and the places they are documented for
CANON=[]
def canon(item,places,*texts,family=True):
    for t in texts: CANON.append((item,t,places))
canon('title',ALL,'title = "x"','title = alib::TITLE','title = concat!("a", "b")','title = format!("{}", 1)','title = ""','title = String::new()')
canon('description',ALL,'description = "x"','description = alib::TITLE','description = stringify!(a b)','description = include_str!("/dev/null")')
canon('example',ALL,'example = 1','example = "two words"','example = &"word"','example = alib::an_in()','example = alib::TITLE','example = (1, "a")','example = -1.5','example = vec![1, 2]','example = None::<u8>','example = { 1 }','example = In { in_a: true, in_b: None }','example = !true','example = 1 + 2 * 3','example = "1abc"','example = b\'c\'','example = \'c\'','example = In::default().in_a','example = &[1, 2][..]' if 0 else 'example = vec![In::default()]')
canon('extend',ALL,'extend("x-a" = 1)','extend("x-a" = 1,)','extend("x-a" = {"k": [1, null, {"z": true}], "e": alib::seven()}, "b" = null, "c" = [])','extend("x-a" = alib::an_in())','extend("x-a" = "s", "" = -1)','extend("type" = ["string", "null"])','extend("x-a" = alib::N::<3>::V)','extend("x-a" = if true { 1 } else { 2 })','extend("x-a" = (1, "a"))')
canon('transform',ALL,'transform = alib::log_two','transform = alib::Log(1)','transform = schemars::transform::RestrictFormats::default()','transform = schemars::transform::RecursiveTransform(alib::log_two)','transform = { alib::log_two }')
canon('rename',ALLC,'rename = "x"','rename = ""','rename = "é {{ }}"','rename = "std::x / y"')
canon('rename',ALLV+NAMED,'rename = "x"','rename = ""','rename = "a {b} \\" /"','rename(serialize = "s", deserialize = "d")','rename(serialize = "s")','rename(deserialize = "d")')
canon('rename_all',['S','S1','E','VS','VSa'],*[f'rename_all = "{c}"' for c in ('lowercase','UPPERCASE','PascalCase','camelCase','snake_case','SCREAMING_SNAKE_CASE','kebab-case','SCREAMING-KEBAB-CASE')],'rename_all(serialize = "camelCase", deserialize = "snake_case")','rename_all(deserialize = "UPPERCASE")')
canon('rename_all_fields',['E'],'rename_all_fields = "camelCase"','rename_all_fields(serialize = "kebab-case")')
canon('deny_unknown_fields',['S','S1','E'],'deny_unknown_fields')
canon('tag',['E','S','S1'],'tag = "t"'); canon('tag+content',['E'],'tag = "t", content = "c"','content = "c", tag = "t"')
canon('untagged',['E','VN','VS','VT','VU','VUi','VSa'],'untagged')
canon('default',['S'],'default','default = "Default::default"'); canon('default',['ST'],'default')
canon('default',['FS','FO','FV','FU','FI','FX'],'default','default = "Default::default"')
canon('transparent',['S1','SN'],'transparent')
canon('bound',ALLC,'bound = ""','bound = "u8: Copy"')
canon('from',['S','S1','ST','SN','SU','E'],'from = "In"','from = "Vec<Option<u8>>"'); canon('try_from',['S','S1','ST','SN','SU','E'],'try_from = "In"'); canon('into',['S','S1','ST','SN','SU','E'],'into = "String"','into = "In"'); canon('from+into',['S','E'],'from = "In", into = "String"','into = "In", try_from = "u8"')
canon('with',ALL,'with = "In"','with = "Vec<u8>"','with = "Option::<alib::In>"','with = "(u8, bool)"','with = "[u8; 2]"','with = "&\'static str"')
canon('schema_with',ALL,'schema_with = "alib::schema_int"','schema_with = "::alib::schema_str"')
canon('inline',ALLC,'inline'); canon('crate',ALLC,'crate = "schemars"','crate = "::schemars"','crate = "alib::reexport::schemars"')
canon('_unstable_ref_variants',['E'],'_unstable_ref_variants')
canon('skip',ALLV+ALLF,'skip'); canon('skip_serializing',ALLV+ALLF,'skip_serializing'); canon('skip_deserializing',ALLV+ALLF,'skip_deserializing')
canon('skip_serializing_if',ALLF,'skip_serializing_if = "alib::never"')
canon('flatten',['FI'],'flatten')
for f in ('email','url','ip','ipv4','ipv6'): canon(f,ALLF,f)
canon('length',ALLF,'length(min = 1)','length(max = 2)','length(min = 1, max = 2)','length(max = 2, min = 1,)','length(equal = 2)','length(min = "1")','length(max = "usize::MAX as u64")' if 0 else 'length(max = "alib::N::<3>::V")','length(equal = alib::N::<3>::V)','length(min = 1 + 1)')
canon('range',ALLF,'range(min = 1)','range(max = 2.5)','range(min = -1, max = 18446744073709551615)','range(min = "1", max = "alib::N::<3>::V")','range(min = -9223372036854775808)','range(max = 1u8)','range(equal = 3)')
canon('pattern',ALLF,'pattern("^a")','pattern(r"\\d")','pattern(*alib::re("x"))','pattern(alib::TITLE)')
canon('regex',ALLF,'regex(pattern = "^a")','regex(pattern = *alib::re("x"),)')
canon('contains',ALLF,'contains("a")','contains(pattern = "a")','contains(alib::TITLE)','contains(pattern = format!("a"))')
canon('required',ALLF,'required')
canon('inner',ALLF,'inner(email)','inner(length(min = 1), pattern("a"))','inner(inner(range(min = 1)))','inner(email), inner(length(max = 3))','inner(contains("x"), url,)','inner()')
INT=['VUi']
def tagged_ok(item,text,p):
    # items that serde rejects in this place, whatever the family
    if item=='untagged' and p in('VNu',): return False
    return True
for item,text,places in CANON:
    for p in places:
        prog(f'valid {item} on {p}',PLACES[p].replace('@',f'#[schemars({text})]'),'ok')
# pairs of different items
first={}
for item,text,places in CANON:
    for p in places: first.setdefault(p,{}).setdefault(item,[]).append(text)
FMT={'email','url','ip','ipv4','ipv6'}; PAT={'pattern','regex','contains'}
def conflict(a,b,p):
    s={a,b}
    if s<=FMT or s<=PAT or s=={'with','schema_with'}: return True
    # what serde itself forbids
    if s in({'tag','untagged'},{'tag+content','untagged'},{'tag','tag+content'}): return True
    if s in({'from','try_from'},{'from','from+into'},{'try_from','from+into'},{'into','from+into'}): return True
    if 'transparent' in s and s&{'from','try_from','into','from+into','default'}: return True
    if 'flatten' in s and s&{'skip','skip_serializing','skip_deserializing','skip_serializing_if','default','rename'}: return None
    if s<={'skip','skip_serializing','skip_deserializing'}: return None
    if 'transparent' in s and s&{'skip','tag'}: return None
    return False
for p,its in first.items():
    for (a,ta),(b,tb) in itertools.combinations(its.items(),2):
        for x,y in [(ta[0],tb[0]),(ta[-1],tb[-1])]:
            c=conflict(a,b,p)
            e={True:'reject',None:'nopanic',False:'ok'}[c]
            for src in (f'#[schemars({x}, {y})]',f'#[schemars({y})] #[schemars({x})]'):
                prog(f'{a} with {b} on {p}',PLACES[p].replace('@',src),e)
# duplicates
REPEAT={'example','transform','inner'}
for p,its in first.items():
    for a,t in its.items():
        for x in t[:2]:
            for y in dict.fromkeys([x,t[-1]]):
                e='reject' if a not in REPEAT and a!='extend' else 'ok' if a!='extend' else 'reject'
                if a=='inner' or (a=='rename' and kind(p)!='container' and y.startswith('rename(deserialize')): e='nopanic'
                if a=='bound' and p in ALLC: e='reject'
                for src in (f'#[schemars({x}, {y})]',f'#[schemars({x})] #[schemars({y})]'):
                    if a=='extend' and 'x-a' not in y: continue
                    prog(f'duplicate {a} on {p}',PLACES[p].replace('@',src),e)
# every item in every form and place
ITEMS=list(dict.fromkeys(i for i,_,_ in CANON if '+' not in i))+['content','remote']
UNKNOWN=['zz','alias','other','serialize_with','deserialize_with','borrow','getter','expecting','variant_identifier','nested','custom','dive','card','titel','Title','min','schema','type_name']
PATHONLY={'deny_unknown_fields','untagged','transparent','inline','_unstable_ref_variants','skip','skip_serializing','skip_deserializing','flatten','email','url','ip','ipv4','ipv6','required'}
LIST={'extend','length','range','pattern','regex','contains','inner'}
EXPR={'title','description','example','transform'}
STRV={'rename','rename_all','rename_all_fields','tag','content','bound','from','try_from','into','with','schema_with','crate','remote','skip_serializing_if'}
OPT={'default'}
assert set(ITEMS)<=PATHONLY|LIST|EXPR|STRV|OPT, set(ITEMS)-(PATHONLY|LIST|EXPR|STRV|OPT)
NV=[' = "a"',' = ""',' = 1',' = -1',' = In',' = true',' = \'c\'',' = b"x"',' = "a::b<"',' = "1 2"']
LS=['()','("a")','(1)','(zz)','(zz = 1)','(min = 1)','(email)','("k" = 1)','(serialize = "a")','(a, b)','(= 1)','(min)','(pattern)','(min = )','("a" "b")','(!email)','(!min)','(1 = 2)','(min = 1 2)','("k")','("k" = )','(x::y = 1)','(x::y)']
SYN=[' =','::y','::y = "a"','::y("a")',' "a"',' = a b',' = ,',' 1',' = = 1','()()',' = "a" = "b"']
NOT=['!{}','!{} = "a"','!{}("a")','!!{}','{}!','! {}::y']
WHERE={}
for i,_,pl in CANON:
    for q in i.split('+'): WHERE.setdefault(q,set()).update(pl)
KINDS={'title':'cvf','description':'cvf','example':'cvf','extend':'cvf','transform':'cvf','with':'cvf','schema_with':'cvf','rename':'cvf','rename_all':'cv','rename_all_fields':'c','deny_unknown_fields':'c','tag':'c','content':'c','untagged':'cv','default':'cf','transparent':'c','bound':'cvf','from':'c','try_from':'c','into':'c','inline':'c','crate':'c','_unstable_ref_variants':'c','skip':'vf','skip_serializing':'vf','skip_deserializing':'vf','skip_serializing_if':'f','flatten':'f','remote':'c'}
for v in list(FMT)+list(PAT)+['length','range','required','inner']: KINDS[v]='f'
def malformed(item,form):
    """is the form one that the item cannot have?"""
    if form in SYN: return True
    if item in PATHONLY: return form!=''
    if item in EXPR: return form=='' or form in LS
    if item in STRV:
        if form=='' : return True
        if form in NV:
            if form in(' = 1',' = -1',' = In',' = true',' = \'c\'',' = b"x"'): return True
            return None
        return True if item in EXPR|{'with','schema_with','crate'} else None
    if item=='default': return None if form in('',) or form in NV[:2]+NV[-2:] else True
    if item in LIST:
        if form=='' or form in NV: return True
        bad={'length':LS,'range':LS,'extend':LS,'inner':LS,'regex':LS,'contains':['()','(zz = 1)','("k" = 1)','(a, b)','(= 1)','(min = 1)','(min = )','("a" "b")','(min = 1 2)','("k" = )'],'pattern':['()','(a, b)','(= 1)','("a" "b")','("k" = )']}[item]
        good={'length':['()','(min = 1)'],'range':['()','(min = 1)'],'extend':['()','("k" = 1)'],'inner':['()','(email)'],'regex':[],'contains':[],'pattern':[]}[item]
        if form in good: return None
        if item=='contains' and form in('(serialize = "a")',): return True
        return True if form in bad else None
for p in PLACES:
    k=kind(p)[0]
    for item in ITEMS:
        for form in ['']+NV+LS+SYN:
            m=malformed(item,form)
            misplaced=k not in KINDS[item]
            e='reject' if misplaced or m else 'nopanic'
            prog(f'{item}{form} on {p}',PLACES[p].replace('@',f'#[schemars({item}{form})]'),e,item if misplaced and form not in SYN else None)
        for form in NOT:
            prog(f'{form.format(item)} on {p}',PLACES[p].replace('@',f'#[schemars({form.format(item)})]'),'reject')
    for item in UNKNOWN:
        for form in ['',' = "a"',' = 1','()','("a")','(a = 1)']:
            prog(f'unknown {item}{form} on {p}',PLACES[p].replace('@',f'#[schemars({item}{form})]'),'reject',item)
            prog(f'unknown {item}{form} beside another on {p}',PLACES[p].replace('@',f'#[schemars(title = "t", {item}{form})]'),'reject',item)
        prog(f'!{item} on {p}',PLACES[p].replace('@',f'#[schemars(!{item})]'),'reject',item)
    for a in ['#[schemars]','#[schemars = "a"]','#[schemars(,)]','#[schemars("a")]','#[schemars(1)]','#[schemars(title = "a" description = "b")]','#[schemars(title = "a",, description = "b")]','#[schemars((title = "a"))]','#[schemars(= "a")]','#[schemars(!)]','#[schemars(!title = "a")]','#[schemars(::title = "a")]','#[schemars(if = 1)]','#[schemars(a.b = 1)]','#[schemars(title += "a")]','#[schemars(-1)]','#[schemars(title; description)]','#[schemars(|x| x)]','#[schemars(#title)]','#[schemars(\'a)]']:
        prog(f'{a} on {p}',PLACES[p].replace('@',a),'reject')
    for a in ['#[schemars()]','#[schemars[title = "a"]]','#[schemars{title = "a"}]','#[schemars(title = "a",)]']:
        prog(f'{a} on {p}',PLACES[p].replace('@',a),'ok')
    # other families' items that are none of schemars' business
    for a in ['#[validate(nested)]','#[validate]','#[validate(custom(function = "x"))]','#[validate(must_match(other = "b"))]','#[validate(custom = "x", zz)]','#[validate = "a"]','#[validate(email(message = "m", code = "c"))]','#[validate(required(message = "m"))]' if 0 else '#[validate(credit_card)]','#[validate(length(min = 1, message = "m"))]','#[validate(range(exclusive_min = 1.0))]','#[validate(1 2 3)]',
              '#[garde(skip)]','#[garde(dive)]','#[garde(custom(f))]','#[garde(custom(|a, b| Ok(())))]','#[garde(rename = "x")]','#[garde(length(chars, min = 1))]','#[garde(length(graphemes, max = 3), ascii)]','#[garde]','#[garde(context(Ctx as ctx))]','#[garde(allow_unvalidated)]','#[garde(alphanumeric, prefix("a"))]','#[garde(phone_number, credit_card)]',
              '#[validate(length(min = 1), length(min = 1))]','#[garde(email, email)]','#[validate(email, url)]','#[serde(alias = "x")]' if k!='c' else '#[serde(expecting = "x")]']:
        if 'serde' in a and (k=='v' and 0): continue
        prog(f'{a} on {p}',PLACES[p].replace('@',a),'ok')
# contents of lists, further
for t,e in [('length(min = 1, min = 2)','reject'),('length(min = 1, equal = 2)','reject'),('length(equal = 2, max = 1)','reject'),('length(equal = 1, equal = 1)','reject'),('range(max = 1, max = 1)','reject'),('range(min = 1, zz = 2)','reject'),('regex(path = "x")','reject'),('regex(pattern = "a", pattern = "b")','reject'),('regex(pattern = "a", zz)','reject'),('regex(zz = 1)','reject'),('contains(pattern = "a", pattern = "b")','reject'),('contains(pattern = "a", zz)','reject'),
            ('inner(email, url)','reject'),('inner(email, email)','reject'),('inner(zz)','reject'),('inner(title = "a")','reject'),('inner(rename = "a")','reject'),('inner(!email)','reject'),('inner(!required)','reject'),('inner(!length)','reject'),('inner(!zz)','reject'),('inner(inner(zz))','reject'),('inner(inner(!url))','reject'),('inner(length(min = 1, zz))','reject'),('inner(pattern("a"), regex(pattern = "b"))','reject'),('inner(length(min = 1), length(max = 2))','reject'),('inner(email), inner(url)','reject'),('inner(email = 1)','reject'),('inner(default)','reject'),('inner(skip)','reject'),('inner(with = "In")','reject'),
            ('length(min = "1 +")','reject'),('range(max = "")','reject'),('with = "1"','reject'),('with = ""','reject'),('schema_with = "1"','reject'),('schema_with = ""','reject'),('schema_with = "a b"','reject'),('with = "Vec<"','reject'),('example = "word"','reject'),('example = "a::b"','reject'),('transform = "a"','reject'),('transform = "alib::log_two"','reject'),('rename_all = "zz"','reject'),('extend("a" = 1, "a" = 2)','reject'),('extend("a" = 1), extend("a" = 1)','reject'),('extend("a" 1)','reject'),('extend("a": 1)','reject'),('extend(a = 1)','reject'),('extend("a" = 1 "b" = 2)','nopanic'),
            ('skip_serializing_if = ""','reject'),('default = ""','reject'),('default = "a b"','reject'),('crate = "a b"','reject'),('bound = "1"','reject'),('from = ""','reject'),('rename(zz = "a")','reject'),('rename(serialize = 1)','reject')]:
    for p in PLACES: prog(f'{t} on {p}',PLACES[p].replace('@',f'#[schemars({t})]'),e)
# unset items
for p,its in first.items():
    for a,t in its.items():
        if a in('example','extend','transform','title','description','inline','crate','schema_with','_unstable_ref_variants','bound','tag+content','from+into') or a in FMT|PAT|{'length','range','required','inner'}: continue
        prog(f'!{a} on {p}',PLACES[p].replace('@',f'#[serde({t[0]})] #[schemars(!{a})]'),'ok')
        prog(f'!{a} first on {p}',PLACES[p].replace('@',f'#[schemars(!{a})] #[serde({t[-1]})]'),'ok')
        prog(f'!{a} twice on {p}',PLACES[p].replace('@',f'#[serde({t[0]})] #[schemars(!{a}, !{a})]'),'reject')
        if a not in('with','skip'): prog(f'!{a} and {a} on {p}',PLACES[p].replace('@',f'#[serde({t[0]})] #[schemars(!{a}, {t[0]})]'),'reject')
# ---- definitions of every shape ----------------------------------------------------------------------------------
def ok(group,src): prog(group,src,'ok')
USE=lambda t: f' fn used() {{ fn f<X: JsonSchema + ?Sized>() {{}} f::<{t}>(); }}'
GEN={ # generics, a type for a field, how T is used
 'none':('','Vec<In>','T',''),
 'type':('<P>','P','T<alib::Opaque>' if 0 else 'T<In>',''),
 'type in Vec':('<P>','Vec<P>','T<In>',''),
 'type in Option':('<P>','Option<P>','T<NoDef>',''),
 'bounded':('<P: Clone>','Option<P>','T<In>',''),
 'where':('<P>','Box<P>','T<In>',' where P: Clone + \'static'),
 'lifetime':("<'a>","Cow<'a, str>","T<'static>",''),
 'ref':("<'a, P: 'a>","Option<&'a P>","T<'static, In>",''),
 'const':('<const N: usize>','Vec<[u8; 2]>','T<2>',''),
 'const array':('<P, const N: usize>','Vec<P>','T<In, 3>',''),
 'default':('<P = u8>','Vec<P>','T',''),
 'unsized':('<P: ?Sized>','Option<Box<P>>','T<str>',''),
 'two':('<P, Q>','BTreeMap<String, (P, Q)>','T<u8, In>',''),
 'assoc':('<P: alib::HasItem>','Vec<P::Item>','T<In>',' where P::Item: JsonSchema'),
 'phantom':('<P>','PhantomData<P>','T<NoSchema>',''),
}
NS=' #[derive(JsonSchema, Serialize, Deserialize, Clone)] struct NoDef(u8); struct NoSchema;'
ATTR=['','#[serde(default)] ','#[serde(default = "Default::default")] ','#[serde(skip_serializing_if = "alib::never")] ','#[serde(default, skip_serializing_if = "alib::never")] ','#[serde(default, serialize_with = "alib::ser_str")] ','#[serde(default = "Default::default", skip_serializing_if = "alib::never", serialize_with = "alib::ser_str")] ','#[serde(skip_serializing)] ','#[serde(skip_deserializing)] ','#[serde(skip)] ','#[serde(default, skip_deserializing)] ','#[schemars(with = "In")] ','#[schemars(schema_with = "alib::schema_int")] ','#[serde(rename = "r")] ','#[schemars(title = "t", extend("x" = 1), example = 1)] ','#[validate(required)] ','#[schemars(length(min = 1), inner(length(max = 3)))] ','/// doc\n','#[deprecated] ','#[serde(default)] #[schemars(with = "In")] ','#[serde(default)] #[schemars(schema_with = "alib::schema_int")] ','#[serde(serialize_with = "alib::ser_str")] ']
for g,(gen,ty,use,wh) in GEN.items():
    mark={'two':'','const':', m: PhantomData<[u8; N]>','const array':', #[serde(skip)] m: [u8; N]','bounded':'','where':'','assoc':''}.get(g,'')
    mark=mark if g=='const array' else (', #[serde(skip)] m: PhantomData<[u8; N]>' if g=='const' else mark)
    tm=re.sub(r'\bm: ','',mark)
    gp=[x.split(':')[0].replace('const ','').split('=')[0].strip() for x in gen.strip('<>').split(',')] if gen else []
    for a in ATTR:
        # serde adds no bound for a named default function, so P itself would have to be declared `Default`
        if g in('type','where') and 'default = "Default::default"' in a: continue
        ok(f'named field, {g}, {a}',D+f'struct T{gen}{wh} {{ b: bool, {a}a: {ty}{mark} }}'+USE(use)+NS)
        ok(f'variant field, {g}, {a}',D+f'enum T{gen}{wh} {{ A, V {{ {a}a: {ty}{mark} }} }}'+USE(use)+NS)
        if not (set(a.split())&{'default,'}) and not('const array'==g and 'default' in a): 
            ok(f'tuple field, {g}, {a}',D+f'struct T{gen}(u8, {a}{ty}{tm}){wh};'+USE(use)+NS)
            if not mark and not (gen and a=='#[serde(skip)] '): ok(f'newtype field, {g}, {a}',D+f'struct T{gen}({a}{ty}){wh};'+USE(use)+NS)
    for ca in ['','#[schemars(rename = "x{P}")] ' if '<P' in gen or ' P' in gen else '#[schemars(rename = "x{N}")] ' if 'N' in gen else '#[schemars(rename = "x")] ','#[schemars(inline)] ','#[schemars(with = "In")] ','#[schemars(schema_with = "alib::schema_int")] ','#[schemars(title = "t", transform = alib::log_two)] ','#[serde(from = "In")] ','#[serde(into = "In")] ','#[serde(deny_unknown_fields)] ','#[schemars(crate = "alib::reexport::schemars")] ','#[schemars(bound = "")] ' if g in('none','lifetime','phantom','const') else '']:
        f=f'b: bool, a: {ty}{mark}'
        if '{P}' in ca and g in('phantom','unsized' if 0 else ''): continue
        ok(f'struct, {g}, {ca}',D+ca+f'struct T{gen}{wh} {{ {f} }}'+USE(use)+NS)
        if g in('phantom',) and '{P}' in ca: continue
        for t in ('','#[serde(tag = "t")] ','#[serde(tag = "t", content = "c")] ','#[serde(untagged)] ','#[schemars(_unstable_ref_variants)] '):
            v='' if 'tag = "t")' in t else f', N({ty}), W({ty}, u8)'
            x='' if 'tag = "t")' in t else ', #[schemars(with = "In")] X(u8, u8)'
            m=f', M {{ #[serde(skip)] m: PhantomData<[u8; N]> }}' if 'N' in gen else ''
            ok(f'enum, {g}, {ca}, {t}',D+ca+t+f'enum T{gen}{wh} {{ U, S {{ a: {ty}, b: u8 }}{v}{m}{x}, #[schemars(schema_with = "alib::schema_int")] Y {{ y: u8 }}, #[serde(skip)] Z(NoSchema) }}'+USE(use)+NS)
    if not mark and g!='phantom': 
        ok(f'transparent, {g}',D+f'#[serde(transparent)] struct T{gen}{wh} {{ a: {ty} }}'+USE(use)+NS)
        ok(f'transparent annotated, {g}',D+f'#[serde(transparent)] #[schemars(title = "t")] struct T{gen}{wh} {{ /// doc\n a: {ty} }}'+USE(use)+NS)
for a in ['#[serde(flatten)] ','#[serde(flatten)] #[validate(required)] ','#[serde(flatten)] #[schemars(with = "In")] ','#[serde(flatten, skip_serializing)] ','#[serde(flatten)] #[schemars(schema_with = "alib::schema_str")] ','#[serde(flatten, default)] ']:
    for t,use in (('In','T'),('P','T<In>'),('Option<P>','T<In>'),('BTreeMap<String, P>','T<In>'),('Value','T')):
        g='<P>' if 'P' in t else ''
        ok(f'flatten {t} {a}',D+f'struct T{g} {{ b: u8, {a}a: {t} }}'+USE(use))
        ok(f'flatten in variant {t} {a}',D+f'#[serde(tag = "t")] enum T{g} {{ A, V {{ b: u8, {a}a: {t} }} }}'+USE(use))
# type parameters anywhere inside the type of a field: the bound has to be found
WR=['Vec<@>','Option<@>','Box<[@]>','[@; 2]','(@, u8)','(u8, @)','Box<@>','(@)',"&'static [@]",'BTreeMap<String, @>','std::sync::Arc<@>','std::result::Result<@, u8>','std::result::Result<bool, @>',"&'static @",'std::ops::Range<@>','(u8, (@,), bool)','HashMap<u8, @>']
def comp(n):
    ts=['P']
    for _ in range(n): ts=[w.replace('@',t) for w in WR for t in ts]
    return ts
def bounded(t): return "<P: 'static>" if "'static" in t else '<P>'
for t in comp(1)+comp(2)+comp(3):
    g=bounded(t)
    ok('parameter inside a type',D+f'struct T{g} {{ b: u8, a: {t} }}'+USE('T<In>'))
for t in comp(1)+comp(2):
    g=bounded(t)
    for a in ('#[serde(skip_serializing)] ','#[serde(skip_deserializing)] ',f'#[schemars(with = "{t}")] ','#[serde(rename = "r")] #[schemars(title = "t")] '):
        if 'skip_des' in a and re.search(r"result|&'static ",t): continue # (`Default` is needed)
        ty='u8' if 'with' in a else t; m=f', #[serde(skip)] p: PhantomData<P>' if 'with' in a else ''
        ok(f'parameter inside a type, {a[:20]}',D+f'struct T{g} {{ b: u8, {a}a: {ty}{m} }}'+USE('T<In>'))
    for e in ('','#[serde(tag = "t")] ','#[serde(untagged)] ','#[serde(tag = "t", content = "c")] '):
        ok('parameter inside a type of a variant',D+e+f'enum T{g} {{ A {{ a: {t} }}, B }}'+USE('T<In>'))
        if e!='#[serde(tag = "t")] ': ok('parameter inside a type of a variant',D+e+f'enum T{g} {{ A(u8, {t}), B }}'+USE('T<In>'))
    ok('parameter inside a type',D+f'struct T{g}(u8, {t});'+USE('T<In>'))
    ok('parameter inside a type',D+f'struct T{g}({t});'+USE('T<In>'))
    ok('phantom parameter inside a type',D+f'struct T{g} {{ b: u8, a: {t.replace("P","PhantomData<P>")} }}'+USE('T<NoSchema>')+NS)
    ok('two parameters inside a type',D+f"struct T<P: 'static, Q: 'static> {{ b: u8, a: {t}, c: {t.replace('P','Q')} }}"+USE('T<In, u8>'))
    ok('item of a parameter inside a type',D+f"struct T<P: alib::HasItem + 'static> where P::Item: JsonSchema + 'static {{ b: u8, a: {t.replace('P','P::Item')} }}"+USE('T<In>'))
    ok('item of a parameter inside a type',D+f"struct T<P: alib::HasItem + 'static> where P::Item: JsonSchema + 'static {{ b: u8, a: {t.replace('P','<P as alib::HasItem>::Item')} }}"+USE('T<In>'))
# container defaults
for g,(gen,ty,use,wh) in GEN.items():
    if g in('ref','phantom','assoc','unsized','const array','lifetime'): continue
    gp=re.sub(r': \w+| = \w+','',gen).replace('const N: usize','N').replace('const ','')
    ig=re.sub(r' = \w+','',gen)
    if g=='type':
        ig=gen2='<P: Default>'; gp='<P>'
        for ca in ('#[serde(default)] ','#[serde(default = "make")] '):
            ok(f'container default, {g}',D+'#[derive(Serialize)] '+ca+f'struct T<P: Default + Serialize> {{ b: bool, a: P, #[serde(skip_serializing_if = "alib::never")] c: P }} impl<P: Default + Serialize> Default for T<P> {{ fn default() -> Self {{ make() }} }} fn make<P: Default + Serialize>() -> T<P> {{ T {{ b: true, a: P::default(), c: P::default() }} }}'+USE(use))
        continue
    mark=', #[serde(skip)] m: PhantomData<[u8; N]>' if g=='const' else ''
    mv=', m: PhantomData' if mark else ''
    b={'where':' where P: Clone + Default + \'static'}.get(g,wh)
    for ca in ('#[serde(default)] ','#[serde(default = "make")] '):
        for fa in ('','#[serde(skip_serializing_if = "alib::never")] ','#[serde(default)] ','#[serde(skip)] ','#[serde(serialize_with = "alib::ser_str")] '):
            ok(f'container default, {g}, {ca}{fa}',D+ca+f'struct T{gen}{b} {{ b: bool, {fa}a: {ty}{mark} }} impl{ig} Default for T{gp}{b} {{ fn default() -> Self {{ make() }} }} fn make{ig}() -> T{gp}{b} {{ T {{ b: true, a: Default::default(){mv} }} }}'+USE(use)+NS)
for gen,use in (('<P>','T<In>'),('<P, Q = u8>','T<In>'),('<\'a, P: Clone>',"T<'static, In>"),('<P, const N: usize>','T<In, 2>')):
    m={'<P, Q = u8>':', q: Q',"<'a, P: Clone>":", m: &'a str",'<P, const N: usize>':', #[serde(skip)] n: PhantomData<[u8; N]>'}.get(gen,'')
    for fa in ('','#[serde(default)] ','#[serde(skip_serializing_if = "alib::never")] ','#[serde(serialize_with = "alib::ser_str")] ','#[serde(skip_deserializing)] ','#[schemars(with = "In")] ','#[schemars(schema_with = "alib::schema_int")] '):
        for ty in ('P','Vec<P>','Option<(P, In)>'):
            ok(f'derived container default, {gen}, {fa}',D+f'#[derive(Default)] #[serde(default)] struct T{gen} {{ b: bool, {fa}a: {ty}{m} }}'+USE(use))
for ty,fs in (('Vec<u8>',('Vec::new','Vec::default','Default::default','std::default::Default::default','alib::any_default','Vec::<u8>::new','<Vec<u8>>::new')),('String',('String::new','Default::default')),('Option<In>',('Default::default','Option::default','alib::some_in')),('P',('P::default','Default::default','alib::any_default','<P as Default>::default')),('Vec<P>',('Vec::new','Vec::<P>::new','alib::any_default')),('Cow<\'static, str>',('Cow::default','Default::default')),('BTreeMap<String, Vec<P>>',('BTreeMap::new',))):
    g='<P: Default>' if 'P' in ty else ''; u='T<In>' if g else 'T'
    for f in fs:
        for more in ('',', skip_serializing_if = "alib::never"',', serialize_with = "alib::ser_str"',', skip_serializing_if = "alib::never", serialize_with = "alib::ser_str"',', skip_deserializing',', rename = "z"'):
            for tpl in ('struct T@ { b: u8, % }','enum T@ { A, V { b: u8, % } }','#[serde(tag = "t", deny_unknown_fields)] enum T@ { A, V { b: u8, % } }'):
                ok(f'default path {f}: {ty}',D+tpl.replace('@',g).replace('%',f'#[serde(default = "{f}"{more})] a: {ty}')+USE(u))
for ca in ('#[serde(default)] ','#[serde(default = "alib::an_in")] ','#[schemars(default)] '):
    ok(f'remote with {ca}',D+ca+'#[serde(remote = "In")] struct T { in_a: bool, in_b: Option<u8> }')
# names
IDENTS=['schema','generator','map','enum_values','prefix_items','min_len','len','d','default','container_default','serializer','value','name','title','r#type','r#struct','r#fn','r#match','ñ','_a','__','a1','schemars','serde','serde_json','core','std','alloc','json','SCHEMA','GENERATOR','T','Some','None','Ok','Option','String','Vec','self_','key','obj','enum_schema']
for n in IDENTS:
    for a in ('','#[serde(default)] ','#[schemars(title = "t")] ','#[serde(default, skip_serializing_if = "alib::never", serialize_with = "alib::ser_str")] '):
        ok(f'field {n} {a}',D+f'struct T {{ {a}{n}: u8 }} '+D+f'#[derive(Default)] #[serde(default)] struct U {{ {a}{n}: u8, b: bool }} '+D+f'#[serde(tag = "t")] enum V {{ V {{ {a}{n}: u8 }} }}')
    if not n.startswith('r#') and n not in('_a','__','ñ','a1') or n=='r#type' or n=='ñ':
        ok(f'variant {n}','#[allow(non_camel_case_types)] '+D+f'enum E {{ {n}, B }} '+D+f'enum F {{ #[schemars(title = "t")] {n}, B({n}_) }} '.replace('{n}_','').replace(f'({n}_)',''))
        ok(f'variant data {n}',D+f'enum F {{ {n}(u8), B {{ b: u8 }} }} '+D+f'#[serde(untagged)] enum G {{ {n}(u8), B {{ b: u8 }} }} '+D+f'#[serde(tag = "t")] enum H {{ {n} {{ {n}: u8 }}, B }}')
        if n[0].isupper() or n in('r#type','ñ'):
            if n not in('SCHEMA','GENERATOR','T'):
                ok(f'type {n}',f'mod m {{ use schemars::JsonSchema; #[derive(JsonSchema)] pub struct {n} {{ a: u8 }} }} '+D+f'struct U {{ a: m::{n} }}')
# shadowed names
SHADOW=['struct Option;','struct Some;','struct None;','enum E { Some, None, Ok, Err } use E::*;','struct Vec; struct String; struct Box; struct Result;','trait Default {} trait Into {} trait From {} trait ToString {} trait Iterator {} trait Extend {}','mod core {} mod std {} mod alloc {}','mod serde {} mod serde_json {}','mod schemars_derive {} mod alib2 {}','macro_rules! vec { () => {} } macro_rules! format { () => {} } macro_rules! json { () => {} } macro_rules! quote { () => {} } macro_rules! concat { () => {} } macro_rules! stringify { () => {} } macro_rules! module_path { () => {} }','struct Schema; struct SchemaGenerator; struct Value; struct Map; struct Cow; struct PhantomData;','fn drop() {} fn some() {} fn to_value() {}','trait Serialize {} trait Serializer {}','macro_rules! json_schema { () => {} }']
for s in SHADOW:
    if 'macro_rules' in s: s=re.sub(r'macro_rules! (\w+) \{ \(\) => \{\} \}',r'#[allow(unused)] macro_rules! \1 { (@@) => {} }',s).replace('@@','no such thing')
    for b in [D+'struct T { #[serde(default)] a: ::core::primitive::u8, #[serde(default, skip_serializing_if = "::alib::never")] b: ::alib::In, #[serde(default, serialize_with = "::alib::ser_str")] c: ::alib::In, #[schemars(title = "t", example = 1, extend("x" = 1), length(min = 1), pattern("a"))] d: ::std::string::String, #[serde(flatten)] e: ::alib::In, #[schemars(schema_with = "::alib::schema_int")] f: (), #[validate(required)] g: ::std::option::Option<::alib::In>, #[schemars(inner(length(min = 1)))] h: ::std::vec::Vec<::std::string::String> }',
              D+'enum T { /** doc */ A, B(::alib::In), C { c: ::alib::In }, D(::alib::In, ::alib::In), #[schemars(with = "::alib::In")] W(()), #[serde(untagged)] X(::alib::In) }',
              D+'#[schemars(_unstable_ref_variants)] enum T { A, B(::alib::In) }', D+'#[serde(tag = "t")] enum T { A, B(::alib::In), C { c: ::alib::In } }', D+'#[serde(tag = "t", content = "c")] enum T { A, B(::alib::In), C(::alib::In, ::alib::In) }',
              D+'#[schemars(rename = "x{P}")] struct T<P> { p: P }', D+'struct T(::alib::In, #[serde(skip)] ::alib::In);', D+'#[serde(transparent)] struct T(::alib::In);', D+'#[serde(from = "::alib::In", into = "::alib::In")] struct T(::alib::In);', '#[derive(schemars::JsonSchema_repr)] #[repr(u16)] enum T { A = 1, B = 7 }', D+'struct T<P, const N: usize> { p: P, #[serde(skip)] q: [P; N] }',
              D+'#[serde(default = "make")] struct T { a: ::alib::In, #[serde(skip_serializing_if = "::alib::never")] b: ::alib::In } fn make() -> T { T { a: ::alib::an_in(), b: ::alib::an_in() } }', D+'#[serde(remote = "::alib::In")] struct T { in_a: ::core::primitive::bool }']:
        prog(f'shadowed: {s}','//noheader\n'+s+' use schemars::JsonSchema; '+b,'ok')
# further definitions
for s in ['struct T {}','struct T();','enum T {}','struct T { r#type: u8 }','pub(crate) struct T { pub(super) a: u8, pub b: u8 }','enum T { A = 1, B = -5 }','#[repr(u8)] enum T { A, B }','#[repr(C)] struct T { a: u8 }','#[non_exhaustive] pub enum T { A }','#[must_use] struct T(u8);','struct T<\'a>(&\'a str, &\'a [u8]);','struct T<\'a, \'b: \'a>(&\'a &\'b str);','struct T { a: fn() -> u8 }' if 0 else 'struct T { #[serde(skip)] a: Option<fn() -> u8>, #[schemars(with = "In")] b: *const u8 }','struct T { a: (u8,), b: ((), (u8, (bool,))), c: [[u8; 2]; 3], d: [u8; 0] }','struct T { a: Box<dyn Fn()> }' if 0 else 'struct T { #[schemars(with = "String")] a: Box<dyn std::fmt::Debug>, #[serde(skip)] b: Option<Box<dyn Fn(u8) -> bool>> }','struct T { a: Option<Box<T>>, b: Vec<T>, c: BTreeMap<String, T> }','enum T { A(Box<T>), B { t: Vec<T> }, C(Option<Box<T>>, u8) }','struct T { a: alib::In, b: ::alib::In, c: self::X } #[derive(JsonSchema)] struct X;','struct T { a: <Vec<u8> as IntoIterator>::Item }','struct T<P: IntoIterator<Item = u8>> { #[serde(skip)] a: PhantomData<P>, b: u8 }','struct T<P> where Vec<P>: JsonSchema, P: JsonSchema { a: Vec<P> }','struct T<P: JsonSchema> { a: P }','struct T<P> where for<\'x> &\'x P: Into<u8> { #[serde(skip)] p: PhantomData<P> }','struct T<const A: bool, const B: char, const C: i8> { a: [u8; 1] }','struct T<const N: usize = 3> { a: [u8; 3] }','#[allow(non_camel_case_types)] struct t_t { A: u8 }','struct T { a: alib::same!(u8), b: Vec<alib::same!(In)> }','struct Ünï { ä: u8 }','enum T { #[serde(skip)] A(std::cell::OnceCell<u8>), B }','enum T { #[serde(skip)] A }','struct T { #[serde(skip)] a: std::cell::OnceCell<u8> }','#[cfg_attr(all(), serde(rename_all = "camelCase"))] struct T { #[cfg(any())] gone: NotThere, #[cfg(all())] a_b: u8 }','enum T { #[cfg(any())] Gone(NotThere), A }','struct T<#[cfg(any())] P, Q> { q: Q }' if 0 else 'struct T { a: ! }' if 0 else 'struct T(#[cfg(any())] NotThere, u8);','struct T { a: std::collections::HashMap<String, Vec<Option<(u8, [bool; 2])>>> }','#[serde(remote = "std::time::Duration")] struct T { secs: u64, nanos: u32 }','#[serde(remote = "std::cmp::Ordering")] enum T { Less, Equal, Greater }','#[schemars(rename = "{{}}")] struct T;','#[schemars(rename = "a{{b}}c")] struct T<P>(P);','#[schemars(rename = "{P}{P}{Q}")] struct T<P, Q>(P, Q);','#[schemars(rename = "n{N}{C}")] struct T<const N: usize, const C: bool>;']:
    ok(f'definition {s[:60]}',D+s)
ok('macro made','macro_rules! mk { ($n:ident, $t:ty, $d:expr, $l:literal) => { #[derive(JsonSchema)] #[doc = $d] #[schemars(title = $d, example = $d, extend("x" = $d))] struct $n { #[schemars(length(min = $l), description = $d)] #[serde(rename = "q")] a: $t, #[serde(default)] b: Option<$t> } #[derive(JsonSchema)] #[serde(tag = "k")] enum E { $n { a: $t } } } } mk!(Made, Vec<u8>, "docs here", 3);')
ok('macro made generic','macro_rules! mk { ($($n:ident<$g:ident>),*) => { $(#[derive(JsonSchema)] struct $n<$g> { a: $g, b: Vec<$g>, #[schemars(schema_with = "alib::schema_int")] c: $g })* } } mk!(A<X>, B<Y>);')
ok('in a function','fn f() { #[derive(JsonSchema)] struct A { a: u8, #[serde(default = "alib::seven")] b: u8 } #[derive(JsonSchema)] enum B<P> { A(A), P(P) } fn g<X: JsonSchema>() {} g::<B<A>>(); }')
ok('in a generic function','fn f<Z>() { #[derive(JsonSchema)] struct A<P> { #[schemars(schema_with = "alib::schema_int")] a: P } fn g<X: JsonSchema>() {} g::<A<u8>>(); }')
for s in ['union T { a: u8 }','union T { a: u8, b: u16 }','#[schemars(title = "a")] union T { #[schemars(zz)] a: u8 }']: prog('union',D+s,'reject')
for s in ['enum T { A(u8) }','struct T;','enum T { A { a: u8 } }','#[repr(C)] struct T { a: u8 }']: prog('repr derive','#[derive(schemars::JsonSchema_repr)] #[repr(u8)] '.replace('#[repr(u8)] ','' if 'repr' in s else '#[repr(u8)] ')+s,'reject')
prog('repr derive','#[derive(schemars::JsonSchema_repr)] enum T { A }','reject')
for r in ('u8','i64','isize','u128' if 0 else 'u64'): ok('repr derive',f'#[derive(schemars::JsonSchema_repr)] #[repr({r})] enum T {{ /// doc\n A, B = 7, #[schemars(rename = "x")] C }}')
ok('repr derive','#[derive(schemars::JsonSchema_repr)] #[repr(u8)] #[schemars(rename = "x", title = "t")] enum T { A }')
# names that cannot be
for s,e in [('#[schemars(rename = "{Q}")] struct T<P>(P);','reject'),('#[schemars(rename = "{")] struct T<P>(P);','reject'),('#[schemars(rename = "}")] struct T<P>(P);','nopanic'),('#[schemars(rename = "{}")] struct T<P>(P);','reject'),('#[schemars(rename = "{0}")] struct T<P>(P);','reject'),('#[schemars(rename = "{P")] struct T<P>(P);','reject'),('#[schemars(rename = "{P:?}")] struct T<P>(P);','reject'),('#[schemars(rename = "{P }")] struct T<P>(P);','nopanic'),('#[schemars(rename = "{}")] struct T;','reject'),('#[schemars(rename = "{T}")] struct T;','reject'),("#[schemars(rename = \"{'a}\")] struct T<'a>(&'a str);",'reject'),('#[schemars(rename = "{{P}")] struct T<P>(P);','reject'),('#[schemars(rename = "{P}}")] struct T<P>(P);','reject'),('#[schemars(rename = "é{P}é")] struct T<P>(P);','ok'),('#[schemars(rename(serialize = "{P}a", deserialize = "{P}b"))] struct T<P>(P);','reject'),
            ('#[serde(rename = "{")] struct T<P>(P);','ok'),('#[serde(rename = "{Q}")] struct T<P>(P);','ok'),('#[serde(rename = "a}b{c")] struct T;','ok'),('#[serde(rename = "a}b{c")] enum T { A }','ok'),('#[serde(rename(serialize = "s", deserialize = "d"))] struct T;','ok'),
            ('#[serde(transparent)] struct T { a: u8, b: u8 }','reject'),('#[serde(transparent)] enum T { A(u8) }','reject'),('#[serde(transparent)] struct T;','reject'),('#[serde(transparent)] struct T { a: In, #[serde(skip)] b: u8 }','ok'),('#[serde(transparent)] struct T(PhantomData<u8>, In);','nopanic'),
            ('#[serde(tag = "t")] enum T { A(u8, u8) }','reject'),('#[serde(tag = "a")] enum T { V { a: u8 } }','reject'),('#[serde(tag = "t", content = "t")] enum T { A }','reject'),('#[serde(content = "t")] enum T { A }','reject'),('#[serde(untagged, tag = "t")] enum T { A }','reject'),('struct T(#[serde(flatten)] In);','reject'),('#[serde(deny_unknown_fields)] struct T { #[serde(flatten)] a: In }','ok'),('enum T { #[serde(untagged)] A, B }','nopanic'),('#[serde(from = "In", try_from = "In")] struct T;','reject'),('#[serde(default)] enum T { A }','reject')]:
    prog(f'definition {s[:60]}',D+s,e)
out=[[g,src,e,nd] for src,(g,e,nd) in progs.items()]
os.makedirs(OUT,exist_ok=True)
json.dump(out,open(f'{OUT}/d07.json','w'))
from collections import Counter
print(len(out),Counter(e for _,_,e,_ in out))
