import sys; sys.path.insert(0,'/verif/vc')
import vc,json,re,glob,os
schema={'enums':{}, 'items':{}}
warn=[]
def getmod(rel, keys, items):
    m=vc.Module('x',rel)
    for k in keys: m.contracts[k]=vc.Contract(k)
    m.items=items
    return vc.extract([m])[0]
# enums
for f in sorted(glob.glob('/repo/src/vpx/gameitem/*.rs'))+['/repo/src/vpx/gamedata.rs','/repo/src/vpx/renderprobe.rs','/repo/src/vpx/material.rs']:
    rel=f[6:]; src=open(f).read()
    for it,en in re.findall(r'impl From<(u32|i32)> for (\w+)',src):
        ex=getmod(rel,['%s::from@From<%s>'%(en,it), '%s::from@From<&%s>'%(it,en),'%s::from@From<%s>'%(it,en)],['enum '+en])
        fns={x['full']:x for x in ex['fns']}
        b=fns['%s::from@From<%s>'%(en,it)]
        arms=re.findall(r'(\w+) => ((?:Self|%s)::\w+(?:\(\w+\))?|v_panic\(\)|\{[^}]*\})'%en, b['body'])
        to=[k for k in fns if k.startswith(it+'::from@')]
        e={'file':rel,'int':it,'pairs':[],'fallback':None,'to_ref':'&' in to[0],'variants':ex['items'][0]['variants']}
        for p,v in arms:
            if p.isdigit(): e['pairs'].append([int(p), v.split('::')[1]])
            elif '::' in v: e['fallback']=v.split('::')[1]
            else: e['fallback']=None
        back=dict((v.split('::')[1].split('(')[0],n) for v,n in re.findall(r'((?:Self|%s)::\w+(?:\(\w+\))?) => (\w+)'%en, fns[to[0]]['body']))
        for n,v in e['pairs']:
            if back.get(v)!=str(n): warn.append((en,n,v,back.get(v)))
        schema['enums'][en]=e
        print(en,e['pairs'],e['fallback'],e['to_ref'],[v[0] for v in e['variants'] if v[0] not in [x[1] for x in e['pairs']]], back if e['fallback'] else '')
KINDS={'f32':'f32','u32':'u32','i32':'i32','bool':'bool','string':'str','wide_string':'wstr'}
def effect(stmt,var,rd,fields):
    stmt=stmt.strip().rstrip(';')
    m=re.fullmatch(r'%s\.([\w.\[\]]+) = (.*)'%var,stmt,re.S)
    if not m: return None
    f,v=m.group(1),' '.join(m.group(2).split())
    opt=False
    mm=re.fullmatch(r'Some\((.*)\)',v)
    if mm: opt=True; v=mm.group(1)
    k=None
    mm=re.fullmatch(r'%s\.get_(\w+)\(\)'%rd,v)
    if mm and mm.group(1) in KINDS: k=KINDS[mm.group(1)]
    elif v in('%s.get_u32().v_into()'%rd,'%s.get_i32().v_into()'%rd):
        t=fields[f]; t=re.sub(r'^Option<(.*)>$',r'\1',t); k='enum:'+t
    elif v=='Color::biff_read(%s)'%rd: k='color'
    elif v=='Vertex2D::biff_read(%s)'%rd: k='v2'
    elif v=='Vertex3D::biff_read(%s)'%rd: k='v3'
    elif v=='Vertex3D::read_unpadded(%s)'%rd: k='v3u'
    elif v=='Font::biff_read(%s)'%rd: k='font'
    elif v=='dequantize_unsigned::<8>(%s.get_u32())'%rd: k='q8'
    elif v=='%s.get_record_data(false)'%rd: k='data'
    if k is None: return None
    if fields.get(f,'').startswith('Option<') and not opt and 'enum' in k: opt=True
    return {'f':f,'k':k,'opt':opt}
def item(rel,t,extra_marks=()):
    ex=getmod(rel,[t+'::biff_read',t+'::biff_write',t+'::default'],['struct '+t])
    fns={x['key']:x for x in ex['fns']}
    body=fns[t+'::biff_read']['body']
    fields={n:ty for n,ty in ex['items'][0]['fields']}
    m=re.search(r'let mut (\w+) = (?:%s|Self)(::default\(\)| \{)'%t,body); var=m.group(1)
    m=re.search(r'(\w+)\.next\(WARN\)',body); rd=m.group(1)
    tv=re.search(r'let (\w+) = tag\.as_str\(\)',body)
    tv=tv.group(1) if tv else 'tag'
    tags=[]
    for a,alt,x in re.findall(r'tag_is\(%s, "(\w+)"\)((?: \|\| tag_is\(\w+, "\w+"\))*) \{(.*?)\n        \}'%tv,body,re.S):
        names=[a]+re.findall(r'"(\w+)"',alt)
        x=x.strip()
        y=' '.join(x.split())
        e=None
        if y=='' : e=[{'k':'mark'}]
        elif 'DragPoint::biff_read(reader)' in y: e=[{'k':'dpnt','f':'drag_points'}]
        else:
            es=[effect(s,var,rd,fields) for s in x.split(';') if s.strip()]
            e=es if all(es) else None
        if e is None: warn.append((t,a,y)); e=[{'k':'TODO','code':y}]
        for n in names: tags.append([n,e])
    el=body[body.rfind('} else {'):]
    i={'file':rel,'fields':[[n,ty] for n,ty in ex['items'][0]['fields']],'tags':tags,'timer':'timer.biff_read_tag' in el,'shared':'read_shared_attribute' in el,'child':'child_reader' in body}
    schema['items'][t]=i
    covered={e.get('f','').split('.')[0].split('[')[0] for _,es in tags for e in es}
    if i['timer']: covered.add('timer')
    if i['shared']: covered|={'is_locked','editor_layer','editor_layer_name','editor_layer_visibility','part_group_name'}
    miss=[n for n,_ in i['fields'] if n not in covered]
    if miss: print('UNCOVERED',t,miss)
for f in sorted(glob.glob('/repo/src/vpx/gameitem/*.rs')):
    rel=f[6:]; src=open(f).read()
    for t in re.findall(r'impl BiffRead for (\w+)',src):
        if t in('Vertex2D','Vertex3D','Vertex4D','Font','Generic'): continue
        item(rel,t)
for w in warn: print('WARN',w)
json.dump(schema,open('/tmp/w/schema.json','w'),indent=0)
