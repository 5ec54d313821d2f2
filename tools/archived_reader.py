"""Development aid: reads the compiled TZDB with the archived AceTime zone
processor (archive/zone_processor.py, through an adapter of its old record
format) and compares local time with the source. Not a check.
Usage: archived_reader.py SEED RUNS"""
import sys, os, types, datetime, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import harness
harness.setup_process()
from vlib import corpus, outs, pipeline as P, decode, canon, tzeval, gen, cal
from vlib.expect import parse_model
def load():
    pk=types.ModuleType('archived'); pk.__path__=[]; sys.modules['archived']=pk
    c=types.ModuleType('archived.common')
    c.MIN_YEAR=0
    c.SECONDS_SINCE_UNIX_EPOCH=946684800
    c.seconds_to_hms=lambda s:(s//3600,s//60%60,s%60)
    c.hms_to_seconds=lambda h,m,s:h*3600+m*60+s
    def cdm(y,m,dow,dom):
        yy,mm,dd=cal.civil(cal.on_day(y,m,dow,dom)); return mm,dd
    c.calc_day_of_month=cdm
    sys.modules['archived.common']=c
    t=types.ModuleType('archived.zonedb_types')
    for n in('ZoneRule','ZonePolicy','ZoneEra','ZoneInfo'): setattr(t,n,dict)
    sys.modules['archived.zonedb_types']=t
    m=types.ModuleType('archived.zone_processor'); m.__package__='archived'
    sys.modules['archived.zone_processor']=m
    exec(compile(open(os.path.join(harness.REPO,'archive/zone_processor.py')).read(),'zone_processor.py','exec'),m.__dict__)
    return m
zp=load()
files=corpus.to_files(); model=parse_model(files)
class Rec:
    def label(s,*a): print(a)
    def nontrivial(s,*a): pass
ANCHOR=2
def run(cfg, names=None):
    case={'model':model,'cfg':cfg,'style':0}
    t=P.transform(files,cfg)
    grain=gen.grain_of(cfg)
    src_z,src_p=canon.zones(model,grain),canon.policies(model,grain)
    out=P.compile_to(files,cfg,['python'])
    fl=out if isinstance(out,dict) else out[0]
    return t,src_z,src_p,fl

def zo(segs):
    out = []
    for s in segs:
        if len(out) > 1:
            prev = out[-1]
            if s[0] + prev[1] <= prev[0] + out[-2][1]:
                out[-1] = (prev[0],) + s[1:]
                continue
        out.append(s)
    return out
def adapt(dst_z,dst_p,name):
    def pol(p):
        return {'name':p,'rules':[dict(from_year=ANCHOR if r['frm']<-30000 else r['frm'],to_year=ANCHOR if r['to']<-30000 else r['to'],in_month=r['month'],on_day_of_week=r['dow'],on_day_of_month=r['dom'],at_seconds=r['at'],at_time_suffix=r['sfx'] or 'w',delta_seconds=r['save'],letter=r['letter']) for r in dst_p[p]]}
    eras=[]
    for e in dst_z[name]:
        u=e['until'] or (32767,1,1,0,'w')
        eras.append(dict(zone_policy='-' if e['policy'] is None else pol(e['policy']),offset_seconds=e['off'],rules_delta_seconds=e['save'] if e['policy'] is None else 0,format=e['fmt'],until_year=u[0],until_month=u[1],until_day=u[2],until_seconds=u[3],until_time_suffix=u[4] or 'w'))
    return {'name':name,'eras':eras}
EP=946684800
def zsegs(z,y):
    z.init_for_year(y)
    out=[]
    lo=cal.days(y,1,1)*86400-EP; hi=cal.days(y+1,1,1)*86400-EP
    ts=z.transitions
    for i,t in enumerate(ts):
        a=t.start_epoch_second; b=ts[i+1].start_epoch_second if i+1<len(ts) else 1<<60
        if b<=lo or a>=hi or b<=a: continue
        f=t.format
        ab=tzeval.abbrev(f,t.offset_seconds,t.delta_seconds,t.letter if t.letter!='-' else '')
        out.append((max(a,lo)+EP,t.offset_seconds+t.delta_seconds,t.delta_seconds,ab))
    res=[]
    for s in out:
        if not res or res[-1][1:]!=s[1:]: res.append(s)
    return res
if __name__=='__main__':
    rnd=random.Random(int(sys.argv[1]))
    for k in range(int(sys.argv[2])):
        a=rnd.randint(1850,2050); b=rnd.randint(a+1,2100)
        scope=rnd.choice(['complete','extended'])
        cfg=P.config(scope=scope,start=a,until=b,strict=False,base=(a+b)//2,tiny=False)
        try: t=P.transform(files,cfg)
        except P.Refused as e: print('refused',e); continue
        grain=gen.grain_of(cfg)
        src_z,src_p=canon.zones(model,grain),canon.policies(model,grain)
        dst_z,dst_p=canon.from_tresult(t)
        bad=0
        for name in sorted(dst_z):
            z=zp.ZoneProcessor(adapt(dst_z,dst_p,name))
            for y in sorted(rnd.sample(range(a,b),min(6,b-a))+[a,b-1]):
                want=tzeval.clip(zo(tzeval.evaluate(src_z[name],src_p,y,y+1)),cal.days(y,1,1)*86400,cal.days(y+1,1,1)*86400)
                try: got=zsegs(z,y)
                except Exception as e: got=[repr(e)]
                w=[tuple(x) for x in want]
                if [x[:4] for x in got]!=w:
                    bad+=1
                    if bad<4: print(scope,a,b,name,y,'\n  want',w,'\n  got ',got)
        print(scope,a,b,'bad',bad)
