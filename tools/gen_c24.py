out=['//! Persistent vector operations against the plain sequence.',
'//@at rrb::from_elements : 1 64 65 66 130 2112 2113 2200 : 0',
'//@at =shape_[lmn].::split_at|shape_[lmn].::get|shape_leaf::(split_at|get) : 1 2,1 1,2,1 0,2 2,0,1 3 64 64,1 40 : 0 1 2 3 4 5 6 63 64 65 100',
'//@at =shape_[lmn].::split_at_head|shape_leaf::split_at_head : 1 2,1 1,2,1 0,2 64,3 : 0 1 2 3 4 5 6 64 66 100',
'//@at =node::push_(front_)?leaf_wide : 0,1 1,1 2,0 31,2 32,1 33,1 40,64 : 0',
'//@at (inline|shape_.*)::.*|node::(update|size).*|seq(_inline)?::.* : 1 2,1 0,2,1 2,0,1 64 63,1 65 64,0,64 1,64,1 : 0 1 2 63 64 65 100',
'//@at (tree|rrb|seq_tree)::.* : 1 2,1 0,2,1 2,0,1 64 63,1 65 64,0,64 1,64,1 : 0 1 2 64 100 0,1 0,2 1,0 1,2 2,1 0,63 0,65 1,64',
'//@at concat::.*|node::.* : 1 2,1 0,2,1 64 63,1 65 64,0,64 1,64,1 0,64,1 40,1,0 : 0',
'//@at =shape_[lmn].::pop_(back|front) : 1 2,1 1,2,1 0,2 2,0,1 3 64 64,1 40 0 0,1 1,0 : 0',
'use super::refs::*;']
def law(n,g,a,r,l,rr): out.append('law!{ %s [%s] (%s) -> %s ; %s ; %s }'%(n,g,a,r,l,rr))
law_=law
REF='''pub fn sq<T: Clone>(v: &PersistentVector<T>) -> (Vec<T>, bool) { (pseq(v), pinv(v)) }
pub fn sq2<T: Clone>(r: &(PersistentVector<T>, PersistentVector<T>)) -> (Vec<T>, bool, Vec<T>, bool) { (pseq(&r.0), pinv(&r.0), pseq(&r.1), pinv(&r.1)) }
pub fn sqo<T: Clone>(r: &Option<(PersistentVector<T>, T)>) -> Option<(Vec<T>, bool, T)> { match r { Some((v, x)) => Some((pseq(v), pinv(v), x.clone())), None => None } }
pub(crate) fn tq<T: Clone>(v: &RRBTree<T>) -> (Vec<T>, bool) { (tseq(v), tinv(v)) }
pub(crate) fn tq2<T: Clone>(r: &(RRBTree<T>, RRBTree<T>)) -> (Vec<T>, bool, Vec<T>, bool) { (tseq(&r.0), tinv(&r.0), tseq(&r.1), tinv(&r.1)) }
pub(crate) fn tqo<T: Clone>(r: &Option<(RRBTree<T>, T)>) -> Option<(Vec<T>, bool, T)> { match r { Some((v, x)) => Some((tseq(v), tinv(v), x.clone())), None => None } }
pub(crate) fn nq<T: Clone>(v: &RRBNode<T>) -> (Vec<T>, bool) { (nseq(v), ninv(v)) }
pub(crate) fn nqo<T: Clone>(r: &Option<(RRBNode<T>, T)>) -> Option<(Vec<T>, bool, T)> { match r { Some((v, x)) => Some((nseq(v), ninv(v), x.clone())), None => None } }
pub fn u<T: Clone>(mut w: Vec<T>, i: usize, x: T) -> Vec<T> { if i < w.len() { w[i] = x; } w }
pub fn pb<T: Clone>(mut w: Vec<T>) -> Option<(Vec<T>, bool, T)> { match w.pop() { Some(x) => Some((w, true, x)), None => None } }
pub fn pf<T: Clone>(mut w: Vec<T>) -> Option<(Vec<T>, bool, T)> { if w.is_empty() { None } else { let x = w.remove(0); Some((w, true, x)) } }
pub fn sp<T: Clone>(w: Vec<T>, i: usize) -> (Vec<T>, bool, Vec<T>, bool) { (w.iter().take(i).cloned().collect(), true, w.iter().skip(i).cloned().collect(), true) }
pub fn c3<T>(a: Vec<T>, b: Vec<T>, c: Vec<T>) -> Vec<T> { cat(cat(a, b), c) }'''
out += REF.split('\n')
def ops(mk, w, g, a, q, qo, q2, skip=()):
    def law(n, *x):
        if n not in skip: law_(n, *x)
    """operations of one level, on a value `mk` with contents `w`"""
    law('get',g,a+', i: usize','Option<T>','%s.get(i).cloned()'%mk,'%s.get(i).cloned()'%w)
    law('update',g,a+', i: usize, x: T','(Vec<T>, bool)','%s(&%s.update(i, x.clone()))'%(q,mk),'(u(%s, i, x.clone()), true)'%w)
    law('push_back',g,a+', x: T','(Vec<T>, bool)','%s(&%s.push_back(x.clone()))'%(q,mk),'(cat(%s, one(x.clone())), true)'%w)
    law('push_front',g,a+', x: T','(Vec<T>, bool)','%s(&%s.push_front(x.clone()))'%(q,mk),'(cat(one(x.clone()), %s), true)'%w)
    law('pop_back',g,a,'Option<(Vec<T>, bool, T)>','%s(&%s.pop_back())'%(qo,mk),'pb(%s)'%w)
    law('pop_front',g,a,'Option<(Vec<T>, bool, T)>','%s(&%s.pop_front())'%(qo,mk),'pf(%s)'%w)
    law('split_at',g,a+', i: usize','(Vec<T>, bool, Vec<T>, bool)','%s(&%s.split_at(i))'%(q2,mk),'sp(%s, i)'%w)
def mod(n): out.append('pub mod %s { use super::*;'%n)
def end(): out.append('}')
I=('pinl(w.clone())','w.clone()','w: Vec<T>')
TH='tr(h.clone(), nabs(r.clone()), t.clone(), k)'
T=('ptree(%s)'%TH,'c3(h.clone(), r.clone(), t.clone())','h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize')
mod('inline'); ops(I[0],I[1],'T: Clone',I[2],'sq','sqo','sq2'); end()
mod('tree'); ops(T[0],T[1],'T: Clone',T[2],'sq','sqo','sq2'); end()
mod('concat')
I2=('pinl(v.clone())','v.clone()','v: Vec<T>')
T2=('ptree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2))','c3(h2.clone(), r2.clone(), t2.clone())','h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize')
for n,x,y in (('ii',I,I2),('it',I,T2),('ti',T,I2),('tt',T,T2)):
    law(n,'T: Clone',x[2]+', '+y[2],'(Vec<T>, bool)','sq(&%s.concat(&%s))'%(x[0],y[0]),'(cat(%s, %s), true)'%(x[1],y[1]))
end()
mod('rrb'); ops(TH,T[1],'T: Clone',T[2],'tq','tqo','tq2')
law('from_elements','T: Clone','w: Vec<T>','(Vec<T>, bool)','tq(&RRBTree::from_elements(w.clone().into_iter()))','(w.clone(), true)')
for k1 in (0,1,2):
    for k2 in (0,1,2):
        law('concat_%d%d'%(k1,k2),'T: Clone','h: Vec<T>, r: Vec<T>, t: Vec<T>, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>','(Vec<T>, bool)','tq(&tr(h.clone(), nabs(r.clone()), t.clone(), %d).concat(&tr(h2.clone(), nabs(r2.clone()), t2.clone(), %d)))'%(k1,k2),'(cat(c3(h.clone(), r.clone(), t.clone()), c3(h2.clone(), r2.clone(), t2.clone())), true)')
end()
SH={'leaf':('leaf(a.clone())','a.clone()','a: Vec<T>',0),
 'b1':('branch(vec![nabs(a.clone())])','a.clone()','a: Vec<T>',1),
 'b2':('branch(vec![nabs(a.clone()), nabs(b.clone())])','cat(a.clone(), b.clone())','a: Vec<T>, b: Vec<T>',1),
 'b3':('branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())])','c3(a.clone(), b.clone(), c.clone())','a: Vec<T>, b: Vec<T>, c: Vec<T>',1),
 'l2':('branch(vec![leaf(a.clone()), leaf(b.clone())])','cat(a.clone(), b.clone())','a: Vec<T>, b: Vec<T>',1),
 'l3':('branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())])','c3(a.clone(), b.clone(), c.clone())','a: Vec<T>, b: Vec<T>, c: Vec<T>',1),
 'm2':('branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())])','c3(a.clone(), b.clone(), c.clone())','a: Vec<T>, b: Vec<T>, c: Vec<T>',2),
 'n2':('branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])])','c3(a.clone(), b.clone(), c.clone())','a: Vec<T>, b: Vec<T>, c: Vec<T>',2)}
for n,(mk,w,a,k) in SH.items():
    mod('shape_'+n)
    t='tr(h.clone(), %s, t.clone(), %d)'%(mk,k); ww='c3(h.clone(), %s, t.clone())'%w
    ops(t,ww,'T: Clone','h: Vec<T>, t: Vec<T>, '+a,'tq','tqo','tq2',('split_at','pop_back','pop_front')+(('get',) if n[0]=='b' else ()))
    if n[0]!='b':
        e='tr(Vec::new(), %s, Vec::new(), %d)'%(mk,k)
        law('split_at','T: Clone',a+', i: usize','(Vec<T>, bool, Vec<T>, bool)','tq2(&%s.split_at(i))'%e,'sp(%s, i)'%w)
        law('pop_back','T: Clone',a,'Option<(Vec<T>, bool, T)>','tqo(&%s.pop_back())'%e,'pb(%s)'%w)
        law('pop_front','T: Clone',a,'Option<(Vec<T>, bool, T)>','tqo(&%s.pop_front())'%e,'pf(%s)'%w)
        law('split_at_head','T: Clone','h: Vec<T>, '+a+', i: usize','(Vec<T>, bool, Vec<T>, bool)','tq2(&tr(h.clone(), %s, Vec::new(), %d).split_at(i))'%(mk,k),'sp(cat(h.clone(), %s), i)'%w)
    for n2 in ('leaf','l2','m2'):
        mk2,w2,a2,k2=SH[n2]
        import re
        r=lambda s: re.sub(r'\b([abc])(\.clone|:)',r'\g<1>2\2',s)
        law('concat_'+n2,'T: Clone',"h: Vec<T>, "+a+', '+r(a2)+', t: Vec<T>','(Vec<T>, bool)','tq(&tr(h.clone(), %s, Vec::new(), %d).concat(&tr(Vec::new(), %s, t.clone(), %d)))'%(mk,k,r(mk2),k2),'(cat(cat(h.clone(), %s), cat(%s, t.clone())), true)'%(w,r(w2)))
        law('concat_ends_'+n2,'T: Clone',"x: Vec<T>, "+a+', '+r(a2)+', y: Vec<T>','(Vec<T>, bool)','tq(&tr(Vec::new(), %s, x.clone(), %d).concat(&tr(y.clone(), %s, Vec::new(), %d)))'%(mk,k,r(mk2),k2),'(cat(cat(%s, x.clone()), cat(y.clone(), %s)), true)'%(w,r(w2)))
    end()
mod('node')
for n,(mk,w,a,k) in SH.items():
    law('update_'+n,'T: Clone',a+', i: usize, x: T','(Vec<T>, bool)','nq(&%s.update(i, x.clone()))'%mk,'(u(%s, i, x.clone()), true)'%w)
    law('size_'+n,'T: Clone',a,'usize','%s.calculate_size()'%mk,'%s.len()'%w)
    law('push_leaf_'+n,'T: Clone',a+', z: Vec<T>','(Vec<T>, bool)','nq(&%s.push_leaf(Arc::new(leaf(z.clone()))))'%mk,'(cat(%s, z.clone()), true)'%w)
    law('push_front_leaf_'+n,'T: Clone',a+', z: Vec<T>','(Vec<T>, bool)','nq(&%s.push_front_leaf(Arc::new(leaf(z.clone()))))'%mk,'(cat(z.clone(), %s), true)'%w)
law('push_leaf_wide','T: Clone','cs: Vec<Vec<T>>, z: Vec<T>','(Vec<T>, bool)','nq(&branch(cs.iter().map(|c| nabs(c.clone())).collect()).push_leaf(Arc::new(leaf(z.clone()))))','(cat(cs.concat(), z.clone()), true)')
law('push_front_leaf_wide','T: Clone','cs: Vec<Vec<T>>, z: Vec<T>','(Vec<T>, bool)','nq(&branch(cs.iter().map(|c| nabs(c.clone())).collect()).push_front_leaf(Arc::new(leaf(z.clone()))))','(cat(z.clone(), cs.concat()), true)')
end()
# operations that do not look at the representation
P='pabs(w.clone())'; W='w: Vec<T>'
mod('seq')
G='T: Clone'
VB='(Vec<T>, bool)'
law('new',G,'_w: Vec<T>',VB,'sq(&PersistentVector::<T>::new())','(Vec::new(), true)')
law('default',G,'_w: Vec<T>',VB,'sq(&PersistentVector::<T>::default())','(Vec::new(), true)')
law('unit',G,'x: T',VB,'sq(&PersistentVector::unit(x.clone()))','(one(x.clone()), true)')
law('len',G,W,'usize',P+'.len()','w.len()')
law('is_empty',G,W,'bool',P+'.is_empty()','w.is_empty()')
law('from_slice',G,W,VB,'sq(&PersistentVector::from_slice(&w))','(w.clone(), true)')
law('from_slice_with_cache_policy',G,W,VB,'sq(&PersistentVector::from_slice_with_cache_policy(&w, ()))','(w.clone(), true)')
law('with_cache_policy',G,'_w: Vec<T>',VB,'sq(&PersistentVector::<T>::with_cache_policy(()))','(Vec::new(), true)')
law('from_iter',G,W,VB,'sq(&PersistentVector::from_iter(w.clone()))','(w.clone(), true)')
law('from_iter_any','T: Clone, IT: Iterator<Item = T> + Clone','w: IT',VB,'sq(&PersistentVector::from_iter(w.clone()))','(w.collect(), true)')
law('from_vec',G,W,VB,'sq(&PersistentVector::from(w.clone()))','(w.clone(), true)')
law('into_vec',G,W,'Vec<T>','Vec::from(%s)'%P,'w.clone()')
law('to_vec',G,W,'Vec<T>',P+'.to_vec()','w.clone()')
law('clone',G,W,VB,'sq(&%s.clone())'%P,'(w.clone(), true)')
law('first',G,W,'Option<T>',P+'.first().cloned()','w.first().cloned()')
law('last',G,W,'Option<T>',P+'.last().cloned()','w.last().cloned()')
law('try_get',G,W+', i: usize','Option<T>',P+'.try_get(i).ok().cloned()','w.get(i).cloned()')
law('try_get_err',G,W+', i: usize','Option<(usize, usize)>','match %s.try_get(i) { Ok(_) => None, Err(crate::pvec::PVecError::IndexOutOfBounds { index, len }) => Some((index, len)), Err(_) => Some((0, 0)) }'%P,'if i < w.len() { None } else { Some((i, w.len())) }')
law('index',G,W+', i: usize','T',P+'[i].clone()','w[i].clone()')
law('try_update',G,W+', i: usize, x: T','Option<%s>'%VB,'match %s.try_update(i, x.clone()) { Ok(v) => Some(sq(&v)), Err(_) => None }'%P,'if i < w.len() { Some((u(w.clone(), i, x.clone()), true)) } else { None }')
law('map','T: Clone, U: Clone, F: Fn(&T) -> U',W+', f: F','(Vec<U>, bool)','sq(&%s.map(|x| f(x)))'%P,'(vec_map(&w, |x| f(x)), true)')
law('fmap','T: Clone, U: Clone, F: Fn(&T) -> U',W+', f: F','(Vec<U>, bool)','sq(&Functor::fmap(&%s, |x: &T| f(x)))'%P,'(vec_map(&w, |x| f(x)), true)')
law('fmap_owned','T: Clone, U: Clone, F: Fn(T) -> U',W+', f: F','(Vec<U>, bool)','sq(&Functor::fmap_owned(%s, |x: T| f(x)))'%P,'(vec_map(&w, |x| f(x.clone())), true)')
law('filter','T: Clone, F: Fn(&T) -> bool',W+', f: F',VB,'sq(&%s.filter(|x| f(x)))'%P,'({ let mut r = Vec::new(); for x in w.iter() { if f(x) { r.push(x.clone()); } } r }, true)')
law('filter_map','T: Clone, U: Clone, F: Fn(&T) -> Option<U>',W+', f: F','(Vec<U>, bool)','sq(&%s.filter_map(|x| f(x)))'%P,'({ let mut r = Vec::new(); for x in w.iter() { if let Some(y) = f(x) { r.push(y); } } r }, true)')
law('flat_map','T: Clone, U: Clone, F: Fn(&T) -> Vec<U>',W+', f: F','(Vec<U>, bool)','sq(&%s.flat_map(|x| f(x)))'%P,'(vec_bind(&w, |x| f(x)), true)')
out.append('vlaw!{ dedup [T: Clone + PartialEq] (w: Vec<T>) -> (Vec<T>, bool) ; sq(&%s.dedup()) ; ({ let mut r = Vec::new(); let mut last: Option<&T> = None; for x in w.iter() { if last != Some(x) { r.push(x.clone()); last = Some(x); } } r }, true) }'%P)
law('sorted','T: Clone + Ord',W,VB,'sq(&%s.sorted())'%P,'({ let mut r = w.clone(); r.sort(); r }, true)')
law('fold','T: Clone, B, F: Fn(B, &T) -> B',W+', b: B, f: F','B',P+'.fold(b, |a, x| f(a, x))','{ let mut a = b; for x in w.iter() { a = f(a, x); } a }')
law('zip','T: Clone, U: Clone',W+', v: Vec<U>','(Vec<(T, U)>, bool)','sq(&%s.zip(&pabs(v.clone())))'%P,'(w.iter().zip(v.iter()).map(|(a, b)| (a.clone(), b.clone())).collect(), true)')
law('partition','T: Clone, F: Fn(&T) -> bool',W+', f: F','(Vec<T>, bool, Vec<T>, bool)','sq2(&%s.partition(|x| f(x)))'%P,'{ let mut a = Vec::new(); let mut b = Vec::new(); for x in w.iter() { if f(x) { a.push(x.clone()); } else { b.push(x.clone()); } } (a, true, b, true) }')
law('chunk_zero',G,W,'(usize, bool)','{ let r = %s.chunk(0); (r.len(), pinv(&r)) }'%P,'(0, true)')
law('chunk',G,W+', n: usize','Vec<(Vec<T>, bool)>','if n == 0 { Vec::new() } else { pseq(&%s.chunk(n)).iter().map(|c| sq(c)).collect() }'%P,'if n == 0 { Vec::new() } else { w.chunks(n).map(|c| (c.to_vec(), true)).collect() }')
law('take',G,W+', n: usize',VB,'sq(&%s.take(n))'%P,'(w.iter().take(n).cloned().collect(), true)')
law('skip',G,W+', n: usize',VB,'sq(&%s.skip(n))'%P,'(w.iter().skip(n).cloned().collect(), true)')
law('insert',G,W+', i: usize, x: T',VB,'sq(&%s.insert(i, x.clone()))'%P,'({ let mut r = w.clone(); if i < r.len() { r.insert(i, x.clone()); } else { r.push(x.clone()); } r }, true)')
law('remove',G,W+', i: usize','Option<%s>'%VB,'match %s.remove(i) { Some(v) => Some(sq(&v)), None => None }'%P,'if i < w.len() { let mut r = w.clone(); r.remove(i); Some((r, true)) } else { None }')
law('extend',G,W+', v: Vec<T>',VB,'{ let mut r = %s; r.extend(v.clone()); sq(&r) }'%P,'(cat(w.clone(), v.clone()), true)')
law('extend_any','T: Clone, IT: Iterator<Item = T> + Clone',W+', v: IT',VB,'{ let mut r = %s; r.extend(v.clone()); sq(&r) }'%P,'(cat(w.clone(), v.collect()), true)')
law('iter',G,W,'Vec<T>','{ let mut r = Vec::new(); for x in %s.iter() { r.push(x.clone()); } r }'%P,'w.clone()')
law('into_iter',G,W,'Vec<T>','{ let mut r = Vec::new(); for x in %s { r.push(x); } r }'%P,'w.clone()')
law('into_iter_ref',G,W,'Vec<T>','{ let mut r = Vec::new(); for x in &%s { r.push(x.clone()); } r }'%P,'w.clone()')
law('iter_collect',G,W,'Vec<T>',P+'.iter().cloned().collect()','w.clone()')
law('collect',G,W,VB,'sq(&w.iter().cloned().collect::<PersistentVector<T>>())','(w.clone(), true)')
law('pvec_macro',G,'a: T, b: T, c: T',VB,'sq(&crate::pvec![a.clone(), b.clone(), c.clone()])','(vec![a.clone(), b.clone(), c.clone()], true)')
law('pvec_macro_empty',G,'_a: T',VB,'{ let v: PersistentVector<T> = crate::pvec![]; sq(&v) }','(Vec::new(), true)')
law('combine',G,W+', v: Vec<T>',VB,'sq(&Semigroup::combine(&%s, &pabs(v.clone())))'%P,'(cat(w.clone(), v.clone()), true)')
law('combine_owned',G,W+', v: Vec<T>',VB,'sq(&Semigroup::combine_owned(%s, pabs(v.clone())))'%P,'(cat(w.clone(), v.clone()), true)')
law('empty',G,'_w: Vec<T>',VB,'sq(&<PersistentVector<T> as Monoid>::empty())','(Vec::new(), true)')
law('fold_left','T: Clone, U: Clone, F: Fn(&U, &T) -> U',W+', b: U, f: F','U','Foldable::fold_left(&%s, &b, |a: &U, x: &T| f(a, x))'%P,'{ let mut a = b.clone(); for x in w.iter() { a = f(&a, x); } a }')
law('fold_right','T: Clone, U: Clone, F: Fn(&T, &U) -> U',W+', b: U, f: F','U','Foldable::fold_right(&%s, &b, |x: &T, a: &U| f(x, a))'%P,'{ let mut a = b.clone(); for x in w.iter().rev() { a = f(x, &a); } a }')
law('length',G,W,'usize','Foldable::length(&%s)'%P,'w.len()')
law('value',G,W,'T','Identity::value(&%s).clone()'%P,'w[0].clone()')
law('try_value',G,W,'Option<T>','Identity::try_value(&%s).cloned()'%P,'w.first().cloned()')
law('into_value',G,W,'T','Identity::into_value(%s)'%P,'w[0].clone()')
law('try_into_value',G,W,'Option<T>','Identity::try_into_value(%s)'%P,'w.first().cloned()')
law('iter_next',G,W+', p: usize','(Option<T>, usize)','{ let v = %s; let mut it = crate::pvec::PersistentVectorIter { vector: &v, position: p }; let r = it.next().cloned(); (r, it.position) }'%P,'(w.get(p).cloned(), if p < w.len() { p + 1 } else { p })')
law('into_iter_next',G,W+', p: usize','(Option<T>, usize)','{ let mut it = crate::pvec::PersistentVectorIntoIter { vector: %s, position: p }; let r = it.next(); (r, it.position) }'%P,'(w.get(p).cloned(), if p < w.len() { p + 1 } else { p })')
law('iter_start',G,W,'(Vec<T>, usize)','{ let v = %s; let it = v.iter(); (pseq(it.vector), it.position) }'%P,'(w.clone(), 0)')
law('into_iter_start',G,W,'(Vec<T>, usize)','{ let it = %s.into_iter(); (pseq(&it.vector), it.position) }'%P,'(w.clone(), 0)')
law('iter_size_hint',G,W+', p: usize','(usize, Option<usize>)','{ let v = %s; crate::pvec::PersistentVectorIter { vector: &v, position: p }.size_hint() }'%P,'(w.len() - p, Some(w.len() - p))')
law('into_iter_size_hint',G,W+', p: usize','(usize, Option<usize>)','crate::pvec::PersistentVectorIntoIter { vector: %s, position: p }.size_hint()'%P,'(w.len() - p, Some(w.len() - p))')
for nm,mk,post in (('iter','{ let v = %s; let mut it = crate::pvec::PersistentVectorIter { vector: &v, position: p }; '%P,'.cloned()'),('into_iter','{ let mut it = crate::pvec::PersistentVectorIntoIter { vector: %s, position: p }; '%P,'')):
    law(nm+'_nth',G,W+', p: usize, n: usize','(Option<T>, Option<T>)',mk+'let a = it.nth(n)%s; let b = it.next()%s; (a, b) }'%(post,post),'(w.get(p + n).cloned(), w.get(p + n + 1).cloned())')
    law(nm+'_last',G,W+', p: usize','Option<T>',mk+'it.last()%s }'%post,'if p < w.len() { w.last().cloned() } else { None }')
    law(nm+'_count',G,W+', p: usize','usize',mk+'it.count() }','w.len().saturating_sub(p)')
    law(nm+'_rest',G,W+', p: usize','Vec<T>',mk+'it%s.collect() }'%post,'if p < w.len() { w[p..].to_vec() } else { Vec::new() }')
    law(nm+'_fold','T: Clone, B, F: Fn(B, T) -> B','w: Vec<T>, p: usize, b: B, f: F','B',mk+'it%s.fold(b, |s, x| f(s, x)) }'%post,'{ let mut s = b; let mut i = p; while i < w.len() { s = f(s, w[i].clone()); i += 1; } s }')
    law(nm+'_skip',G,W+', p: usize','Vec<T>',mk+'it.skip(1)%s.collect() }'%post,'if p + 1 < w.len() { w[p + 1..].to_vec() } else { Vec::new() }')
    law(nm+'_stays_done',G,W,'(usize, bool)',mk.replace('position: p','position: 0')+'let mut n = 0; while let Some(_) = it.next() { n += 1; } let d = it.next().is_none() && it.next().is_none(); (n, d) }','(w.len(), true)')

law('iter_len',G,W,'usize',P+'.iter().len()','w.len()')
end()
# the same operations on a vector whose representation is known: code that looks into it is decided too
import re
a=next(i for i,l in enumerate(out) if l.startswith('pub mod seq '))
seq=out[a+1:-1]
TZ=('ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk))','c3(zh.clone(), zr.clone(), zt.clone())','zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize')
for n,mk,w,args in (('seq_inline',)+I[:3],('seq_tree',)+TZ):
    mod(n)
    for l in seq:
        m=re.match(r'(v?law!\{ )(\w+) \[(.*?)\] \((.*?)\) -> (.*) \}$',l)
        if not m or 'pabs(w.clone())' not in l or m.group(2).startswith(('into_iter_','iter_')) : continue
        head,nm,g,ar,rest=m.groups()
        assert ar.startswith('w: Vec<T>'),l
        ret,lhs,rhs=rest.split(' ; ',2) if rest.count(' ; ')==2 else (None,None,None)
        if ret is None: continue
        if n=='seq_tree': ar=ar.replace('w: Vec<T>',args,1)
        d='' if n=='seq_inline' else 'let w = %s; '%w
        out.append('%s%s [%s] (%s) -> %s ; %s ; %s }'%(head,nm,g,ar,ret,lhs.replace('pabs(w.clone())',mk),'{ %s%s }'%(d,rhs) if d else rhs))
    end()
import os
open(os.path.dirname(os.path.abspath(__file__))+'/../spec/c24.rs','w').write('\n'.join(out)+'\n')
