import sys, random; sys.path.insert(0,'/verif')
from datetime import *
import z3
from pyvc import times as T
from pyvc.values import *
import pyvc.values as V
class C:
    def branch(self,e): 
        e=z3.simplify(e); assert z3.is_true(e) or z3.is_false(e), e
        return z3.is_true(e)
V.set_cur(C())
r=random.Random(1)
def con(x):
    if isinstance(x,(T.STimedelta,)): return timedelta(microseconds=z3.simplify(x.e).as_long())
    if isinstance(x,T.SDatetime): return (T.EPOCH+timedelta(microseconds=z3.simplify(x.e).as_long())).replace(tzinfo=x.tz)
    if isinstance(x,SFloat): 
        f=z3.simplify(x.e).as_fraction(); return float(f)
    if isinstance(x,SInt): return z3.simplify(x.e).as_long()
    if isinstance(x,SBool): return z3.is_true(z3.simplify(x.e))
    return x
n=0
def run(f):
    try: return con(f())
    except (OverflowError,TypeError,ValueError,ZeroDivisionError) as e: return type(e)
import operator as op
for i in range(4000):
    a=timedelta(days=r.randint(-5,5),seconds=r.randint(-100000,100000),microseconds=r.randint(-5,5)*r.choice([1,500000]))
    b=timedelta(seconds=r.randint(-4,4),milliseconds=r.choice([0,250,1]))
    sa=T.STimedelta(z3.IntVal(T.us(a).as_long())); 
    for o in (op.add,op.sub,op.lt,op.le,op.eq,op.ne,op.gt,op.truediv,op.floordiv,op.mod):
        for x,y,sx,sy in ((a,b,sa,b),(b,a,b,sa)):
            if o is op.mod and sx is b: continue
            e=run(lambda:o(x,y)); g=run(lambda:o(sx,sy)); n+=1
            assert e==g,(o,x,y,e,g)
    k=r.choice([2,-3,0,7])
    for o in (op.mul,op.floordiv,op.truediv):
        e=run(lambda:o(a,k)); g=run(lambda:o(sa,k)); assert e==g,(o,a,k,e,g)
    assert run(lambda:abs(sa))==abs(a) and con(sa.days)==a.days and con(sa.seconds)==a.seconds and con(sa.microseconds)==a.microseconds and con(sa.total_seconds())==a.total_seconds()
    f=r.choice([0.5,1.25,r.randint(0,99)/8])
    assert run(lambda:T.STimedelta.make(seconds=SFloat(z3.RealVal(str(f)))))==timedelta(seconds=f)
    args=[r.choice([1,1999,2000,2100,2024,9999,0,r.randint(1,9999)]),r.randint(0,13),r.randint(0,32),r.randint(0,24),r.randint(0,60),r.randint(0,59)]
    tz=r.choice([None,timezone.utc,timezone(timedelta(hours=r.randint(-12,12)))])
    sargs=[SInt(z3.IntVal(x)) for x in args]
    e=run(lambda:datetime(*args,tzinfo=tz)); g=run(lambda:T.SDatetime.make(*sargs,tzinfo=tz)); assert e==g,(args,e,g)
    if isinstance(e,datetime):
        sd=T.SDatetime.make(*sargs,tzinfo=tz)
        other=datetime(2020,1,1,tzinfo=r.choice([None,timezone.utc,tz]))
        for o in (op.sub,op.lt,op.eq,op.ge,op.ne):
            for x,y,sx,sy in ((e,other,sd,other),(other,e,other,sd)):
                ee=run(lambda:o(x,y)); gg=run(lambda:o(sx,sy)); assert ee==gg,(o,x,y,ee,gg)
        assert run(lambda:sd+a)==run(lambda:e+a) and run(lambda:sd-sa)==run(lambda:e-a) and run(lambda:a+sd)==run(lambda:a+e) 
        if tz: 
            assert run(sd.timestamp)==e.timestamp() and sd.utcoffset()==e.utcoffset()
            ts=r.randint(-10**9,10**10)
            assert con(T.SDatetime.fromtimestamp(SInt(z3.IntVal(ts)),tz))==datetime.fromtimestamp(ts,tz)
print("ok",n)
