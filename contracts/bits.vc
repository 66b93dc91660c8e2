lemma bitMaskLow(w Int, m Int, i Int) bv trigger {shr64(and64(w, shl64(1,m)-1), i)} := m < 64 && i < m ==> shr64(and64(w, shl64(1,m)-1), i) % 2 == shr64(w,i) % 2
lemma bitMaskTop(w Int, m Int) bv trigger {and64(w, shl64(1,m)-1)} := m < 64 ==> shr64(and64(w, shl64(1,m)-1), m) % 2 == 0
lemma bitOrLow(w Int, m Int, i Int) bv trigger {shr64(or64(w, shl64(1,m)), i)} := m < 64 && i < m ==> shr64(or64(w, shl64(1,m)), i) % 2 == shr64(w,i) % 2
lemma bitOrTop(w Int, m Int) bv trigger {or64(w, shl64(1,m))} := m < 64 ==> shr64(or64(w, shl64(1,m)), m) % 2 == 1
lemma bitZero(m Int) bv trigger {shr64(0, m)} := m < 64 ==> shr64(0,m) % 2 == 0
lemma bitOne(m Int) bv trigger {shr64(1, m)} := m == 0 ==> shr64(1,m) % 2 == 1
lemma bitShlPos(m Int) bv trigger {shl64(1,m)} := m < 64 ==> shl64(1,m) >= 1
lemma kZero(a (Array Int Int), d Int) trigger {absK(a,d)} := d <= 0 ==> absK(a,d) == kNil()
lemma kUpdMask(a (Array Int Int), q Int, m Int, d Int, v Int) trigger {absK(store(a,q,v),d), and64(a[q], shl64(1,m)-1)} induct d down {0} := 
  0 <= m && m < 64 && 0 <= q && d <= 64*q + m && v == and64(a[q], shl64(1,m)-1) ==> absK(store(a,q,v),d) == absK(a,d)
lemma kUpdOr(a (Array Int Int), q Int, m Int, d Int, v Int) trigger {absK(store(a,q,v),d), or64(a[q], shl64(1,m))} induct d down {0} := 
  0 <= m && m < 64 && 0 <= q && d <= 64*q + m && v == or64(a[q], shl64(1,m)) ==> absK(store(a,q,v),d) == absK(a,d)
lemma kUpdHi(a (Array Int Int), q Int, d Int, v Int) trigger {absK(store(a,q,v),d)} induct d down {0} := 
  0 <= q && d <= 64*q ==> absK(store(a,q,v),d) == absK(a,d)
