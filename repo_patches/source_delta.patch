From 92b975b583ae0de49cdbb5bf5649e877df5a371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 1/3] fix: keep number of goroutines within MaxGor

Quota check and counter increment were not atomic, and partitioning goroutine
was not counted, so a Sort*() call could use more than MaxGor goroutines.
---
 sorty.go     | 10 ++++++----
 sortyB.go    | 22 ++++++++++++----------
 sortyF4.go   | 22 ++++++++++++----------
 sortyF8.go   | 22 ++++++++++++----------
 sortyI4.go   | 22 ++++++++++++----------
 sortyI8.go   | 22 ++++++++++++----------
 sortyLenB.go | 22 ++++++++++++----------
 sortyLenS.go | 22 ++++++++++++----------
 sortyLsw.go  | 22 ++++++++++++----------
 sortyS.go    | 22 ++++++++++++----------
 sortyU4.go   | 22 ++++++++++++----------
 sortyU8.go   | 22 ++++++++++++----------
 12 files changed, 138 insertions(+), 114 deletions(-)

diff --git a/sorty.go b/sorty.go
index 0ca4b2b..9077ff4 100644
--- a/sorty.go
+++ b/sorty.go
@@ -19,6 +19,7 @@ package sorty
 
 import (
 	"reflect"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/jfcg/sixb"
@@ -83,12 +84,13 @@ type syncVar struct {
 	done chan int // end signal
 }
 
-// gorFull returns true if goroutine quota is full, inlined
+// gorAcquire takes a place in goroutine quota for a new goroutine. Returns
+// false if the quota is full, or there is contention for it, inlined
 //
 //go:norace
-func gorFull(sv *syncVar) bool {
-	mg := MaxGor
-	return sv.nGor >= mg
+func gorAcquire(sv *syncVar) bool {
+	n := atomic.LoadUint64(&sv.nGor)
+	return n < MaxGor && atomic.CompareAndSwapUint64(&sv.nGor, n, n+1)
 }
 
 const (
diff --git a/sortyB.go b/sortyB.go
index e5f93d0..588dc65 100644
--- a/sortyB.go
+++ b/sortyB.go
@@ -298,15 +298,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorAcquire(sv) {
 		longB(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongB(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning goroutine
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,17 +344,20 @@ func sortB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongB(aq, &sv)
+			go gLongB(aq, &sv) // takes the place of partitioning goroutine
 
-		} else if len(aq) > MaxLenInsFC {
-			shortB(aq)
 		} else {
-			insertionB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+
+			if len(aq) > MaxLenInsFC {
+				shortB(aq)
+			} else {
+				insertionB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRecFC+1) || !gorAcquire(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF4.go b/sortyF4.go
index 48355a8..878577a 100644
--- a/sortyF4.go
+++ b/sortyF4.go
@@ -313,15 +313,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorAcquire(sv) {
 		longF4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF4(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF4(ar []float32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning goroutine
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,17 +393,20 @@ func sortF4(ar []float32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF4(aq, &sv)
+			go gLongF4(aq, &sv) // takes the place of partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortF4(aq)
 		} else {
-			insertionF4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+
+			if len(aq) > MaxLenIns {
+				shortF4(aq)
+			} else {
+				insertionF4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorAcquire(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF8.go b/sortyF8.go
index 7afe6af..f78be4c 100644
--- a/sortyF8.go
+++ b/sortyF8.go
@@ -313,15 +313,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorAcquire(sv) {
 		longF8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF8(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF8(ar []float64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning goroutine
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,17 +393,20 @@ func sortF8(ar []float64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF8(aq, &sv)
+			go gLongF8(aq, &sv) // takes the place of partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortF8(aq)
 		} else {
-			insertionF8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+
+			if len(aq) > MaxLenIns {
+				shortF8(aq)
+			} else {
+				insertionF8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorAcquire(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI4.go b/sortyI4.go
index 0476f29..78b44c9 100644
--- a/sortyI4.go
+++ b/sortyI4.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorAcquire(sv) {
 		longI4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI4(ar []int32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning goroutine
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,20 @@ func sortI4(ar []int32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI4(aq, &sv)
+			go gLongI4(aq, &sv) // takes the place of partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortI4(aq)
 		} else {
-			insertionI4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+
+			if len(aq) > MaxLenIns {
+				shortI4(aq)
+			} else {
+				insertionI4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorAcquire(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI8.go b/sortyI8.go
index c546035..d5721a4 100644
--- a/sortyI8.go
+++ b/sortyI8.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorAcquire(sv) {
 		longI8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI8(ar []int64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning goroutine
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,20 @@ func sortI8(ar []int64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI8(aq, &sv)
+			go gLongI8(aq, &sv) // takes the place of partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortI8(aq)
 		} else {
-			insertionI8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+
+			if len(aq) > MaxLenIns {
+				shortI8(aq)
+			} else {
+				insertionI8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorAcquire(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenB.go b/sortyLenB.go
index e8d4874..ac46d40 100644
--- a/sortyLenB.go
+++ b/sortyLenB.go
@@ -303,15 +303,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorAcquire(sv) {
 		longLenB(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenB(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning goroutine
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,17 +351,20 @@ func sortLenB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenB(aq, &sv)
+			go gLongLenB(aq, &sv) // takes the place of partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortLenB(aq)
 		} else {
-			insertionLenB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+
+			if len(aq) > MaxLenIns {
+				shortLenB(aq)
+			} else {
+				insertionLenB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorAcquire(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenS.go b/sortyLenS.go
index d9f590e..2df57b7 100644
--- a/sortyLenS.go
+++ b/sortyLenS.go
@@ -303,15 +303,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorAcquire(sv) {
 		longLenS(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenS(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning goroutine
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,17 +351,20 @@ func sortLenS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenS(aq, &sv)
+			go gLongLenS(aq, &sv) // takes the place of partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortLenS(aq)
 		} else {
-			insertionLenS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+
+			if len(aq) > MaxLenIns {
+				shortLenS(aq)
+			} else {
+				insertionLenS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorAcquire(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLsw.go b/sortyLsw.go
index 7612f92..5bf14a6 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -299,15 +299,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorAcquire(sv) {
 		long(lsw, l, h, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLong(lsw, lo, hi, sv)
 	lo, hi = l, h
 	goto start
@@ -350,7 +349,7 @@ func Sort(n int, lsw Lesswap) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning goroutine
 		make(chan int)} // end signal
 	lo, hi := 0, n
 	for {
@@ -368,17 +367,20 @@ func Sort(n int, lsw Lesswap) {
 
 		// handle shorter range
 		if n >= MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLong(lsw, l, h, &sv)
+			go gLong(lsw, l, h, &sv) // takes the place of partitioning goroutine
 
-		} else if n >= MaxLenInsFC {
-			short(lsw, l, h)
 		} else {
-			insertion(lsw, l, h)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+
+			if n >= MaxLenInsFC {
+				short(lsw, l, h)
+			} else {
+				insertion(lsw, l, h)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if no <= 2*MaxLenRecFC || gorFull(&sv) {
+		if no <= 2*MaxLenRecFC || !gorAcquire(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyS.go b/sortyS.go
index 621df0d..947df7a 100644
--- a/sortyS.go
+++ b/sortyS.go
@@ -298,15 +298,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorAcquire(sv) {
 		longS(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongS(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning goroutine
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,17 +344,20 @@ func sortS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongS(aq, &sv)
+			go gLongS(aq, &sv) // takes the place of partitioning goroutine
 
-		} else if len(aq) > MaxLenInsFC {
-			shortS(aq)
 		} else {
-			insertionS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+
+			if len(aq) > MaxLenInsFC {
+				shortS(aq)
+			} else {
+				insertionS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRecFC+1) || !gorAcquire(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU4.go b/sortyU4.go
index 8b222f7..8cc5efd 100644
--- a/sortyU4.go
+++ b/sortyU4.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorAcquire(sv) {
 		longU4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU4(ar []uint32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning goroutine
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,20 @@ func sortU4(ar []uint32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU4(aq, &sv)
+			go gLongU4(aq, &sv) // takes the place of partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortU4(aq)
 		} else {
-			insertionU4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+
+			if len(aq) > MaxLenIns {
+				shortU4(aq)
+			} else {
+				insertionU4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorAcquire(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU8.go b/sortyU8.go
index 906f041..1a14cc3 100644
--- a/sortyU8.go
+++ b/sortyU8.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines?
+	if sv == nil || !gorAcquire(sv) {
 		longU8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU8(ar []uint64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning goroutine
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,20 @@ func sortU8(ar []uint64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU8(aq, &sv)
+			go gLongU8(aq, &sv) // takes the place of partitioning goroutine
 
-		} else if len(aq) > MaxLenIns {
-			shortU8(aq)
 		} else {
-			insertionU8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+
+			if len(aq) > MaxLenIns {
+				shortU8(aq)
+			} else {
+				insertionU8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorAcquire(&sv) {
 			break
 		}
 		// dual partition longer range
-- 
2.43.0


From 053f3b4f06af4e900e15276d50fa7f4fe54119dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 2/3] fix: move pointers as pointers in SortSlice

[]*T and []unsafe.Pointer were sorted as []uint64 / []uint32. Without write
barriers a concurrent garbage collector cycle could free live objects.
---
 sorty.go      | 34 +++++++++++++++++++++++++++++++---
 sortySlice.go |  6 ++++++
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/sorty.go b/sorty.go
index 9077ff4..e172ea1 100644
--- a/sorty.go
+++ b/sorty.go
@@ -137,6 +137,31 @@ func insertionI(slc []int) {
 	}
 }
 
+// isSortedP returns 0 if ar is sorted by address in ascending
+// order, otherwise it returns i > 0 with ar[i] < ar[i-1]
+func isSortedP(ar []unsafe.Pointer) int {
+	for i := len(ar) - 1; i > 0; i-- {
+		if uintptr(ar[i]) < uintptr(ar[i-1]) {
+			return i
+		}
+	}
+	return 0
+}
+
+// sortP concurrently sorts ar by address in ascending order. Pointers must not be
+// moved as integers, otherwise garbage collector misses the writes.
+func sortP(ar []unsafe.Pointer) {
+	Sort(len(ar), func(i, k, r, s int) bool {
+		if uintptr(ar[i]) < uintptr(ar[k]) {
+			if r != s {
+				ar[r], ar[s] = ar[s], ar[r]
+			}
+			return true
+		}
+		return false
+	})
+}
+
 const sliceBias reflect.Kind = 100
 
 // extracts slice and element kind from ar
@@ -151,8 +176,11 @@ func extractSK(ar any) (slc sixb.Slice, kind reflect.Kind) {
 	kind = tipe.Kind()
 
 	switch kind {
-	// map int/uint/pointer types to hardware type
-	case reflect.Uintptr, reflect.Pointer, reflect.UnsafePointer:
+	// map all pointer types to unsafe.Pointer
+	case reflect.Pointer:
+		kind = reflect.UnsafePointer
+	// map int/uint/uintptr types to hardware type
+	case reflect.Uintptr:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uintptr(0))>>3)
 	case reflect.Uint:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uint(0))>>3)
@@ -163,7 +191,7 @@ func extractSK(ar any) (slc sixb.Slice, kind reflect.Kind) {
 		kind = sliceBias + tipe.Elem().Kind()
 	// other recognized types
 	case reflect.Int32, reflect.Int64, reflect.Uint32, reflect.Uint64,
-		reflect.Float32, reflect.Float64, reflect.String:
+		reflect.Float32, reflect.Float64, reflect.String, reflect.UnsafePointer:
 	default:
 		kind = reflect.Invalid
 		return
diff --git a/sortySlice.go b/sortySlice.go
index 6b3cf81..2fda2bd 100644
--- a/sortySlice.go
+++ b/sortySlice.go
@@ -48,6 +48,9 @@ func IsSortedSlice(ar any) int {
 	case reflect.String:
 		s := *(*[]string)(unsafe.Pointer(&slc))
 		return isSortedS(s)
+	case reflect.UnsafePointer: // []*T too
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		return isSortedP(p)
 	}
 	panic("sorty: IsSortedSlice: invalid input type")
 }
@@ -88,6 +91,9 @@ func SortSlice(ar any) {
 	case reflect.String:
 		s := *(*[]string)(unsafe.Pointer(&slc))
 		sortS(s)
+	case reflect.UnsafePointer: // []*T too
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		sortP(p)
 	default:
 		panic("sorty: SortSlice: invalid input type")
 	}
-- 
2.43.0


From a12f53d9e8dc88049e7e86ab6476d88e1b3b36f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 3/3] fix: avoid index overflow in Lesswap pivot selection

For n near MaxInt, h += step wrapped around after the last sample, and
lsw was called with negative indices.
---
 sortyLsw.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sortyLsw.go b/sortyLsw.go
index 5bf14a6..f19f974 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -64,7 +64,8 @@ func pivot(lsw Lesswap, lo, hi int, n uint) int {
 	last := lo + int(l)
 
 	// insertion sort slc[first + j * step], j=0,1,..
-	for h := first + step; h <= last; h += step {
+	for h := first; h < last; {
+		h += step // stays ≤ last, cannot overflow
 		for l := h; lsw(l, l-step, l, l-step); {
 			l -= step
 			if l <= first {
-- 
2.43.0

