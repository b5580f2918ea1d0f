use refimpl::{spec::*,gen::*,lalr::Act};
fn main(){
 let spec=Spec::load("/verif/spec");
 let nonerr:usize=spec.l.action.iter().map(|r|r.iter().filter(|a|**a!=Act::Error).count()).sum();
 let shifts:usize=spec.l.action.iter().map(|r|r.iter().filter(|a|matches!(a,Act::Shift(_))).count()).sum();
 println!("nonerror cells {nonerr} shifts {shifts}");
 let w=Words::new(&spec);
 for salt in 0..3u64 {
 let t0=std::time::Instant::now();
 let p=Paths::new(&spec.g,&spec.l,salt);
 let (mut unreach,mut noprefix,mut cells,mut acc,mut tot,mut len)=(0,0,0,0,0,0);
 let mut seen=std::collections::HashSet::new();
 let mut ex=vec![];
 for s in 0..spec.l.kernels.len(){
  let Some(pre)=p.prefix(s) else {unreach+=1;continue};
  if p.run(&pre).is_none(){noprefix+=1; if ex.len()<5 {ex.push(w.render_plain(&pre));} continue;}
  for t in 0..spec.g.nt { if t!=0 && unwritable(&spec.g,t){continue}
   if spec.l.action[s][t]==Act::Error {continue}
   cells+=1;
   let mut v=pre.clone(); if t!=0 {v.push(t);}
   if let Some(st)=p.run(&v){ if t!=0 {v.extend(p.complete(&st));}
     tot+=1; len+=v.len();
     if s%20==0 { let terms:Vec<_>=v.iter().map(|x|Some(*x)).collect();
      match spec.parse_terms(&terms,|a,b|{seen.insert((a,b));}){Ok(_)=>acc+=1,Err(i)=>{if ex.len()<20{ex.push(format!("REJ at {i} {}",w.render_plain(&v)))}}}}
   }
  }
 }
 println!("salt {salt} unreach {unreach} noprefix {noprefix} cells {cells} tot {tot} acc(sampled) {acc} avg len {} seen {} {:?}",len as f64/tot as f64,seen.len(),t0.elapsed());
 for e in ex {println!("   {e}");}
 }
 let g=SentenceGen::new(&spec);
 let mut r=Rng::new(1,1);
 let st=spec.g.id("stmt").unwrap();
 for _ in 0..10 { let v=g.random(&mut r,st,20); println!("{}",w.render_fancy(&mut r,&v)); }
}
