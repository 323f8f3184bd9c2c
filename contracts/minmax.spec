// Sample positions first, first+step, .. last of a range of slen elements

func minMaxSample(slen, n)
  attr inline
  requires n >= 2 && slen >= 2*n
  ensures r1 >= 2
  ensures r0 >= 0 && r2 < slen
  ensures r2 == r0 + (n-1)*r1
  ensures r0 - (slen-1-r2) <= 1 && slen-1-r2 - r0 <= 1
  ensures allint(f, allint(s, imp(f >= 0 && s >= 1 && f + (n-1)*s < slen, (r0 <= f || r0 <= slen-1-f-(n-1)*s || r0 <= s/2) && (slen-1-r2 <= f || slen-1-r2 <= slen-1-f-(n-1)*s || slen-1-r2 <= s/2) && (r1/2 <= f || r1/2 <= slen-1-f-(n-1)*s || r1/2 <= s/2))))

func minMaxFour(slen)
  attr inline
  requires slen >= 8
  also minMaxSample(slen, 4)
  ensures r0 == q0
  ensures r1 == q1

// The start-up check. mconst: MaxGor is not changed meanwhile
func init#1()
  requires mconst
  panics iff !(MaxGor >= 1 && MaxGor <= 4096 && MaxLenRec > MaxLenRecFC && MaxLenRecFC > 2*MaxLenIns && MaxLenIns > MaxLenInsFC && MaxLenInsFC > 8)
