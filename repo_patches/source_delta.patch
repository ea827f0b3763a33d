From 6f0622007806c1072b236c8abb74589c27e2a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:37 +0000
Subject: [PATCH] fix: count an added element before it becomes visible, so
 that Len is never below the contents

Add incremented the length only after the new node was flagged fully linked and its
predecessors unlocked. A concurrent Remove of the same element could decrement first and
Len returned -1.
---
 gen_func.go        | 2 +-
 gen_int.go         | 2 +-
 gen_int32.go       | 2 +-
 gen_int32desc.go   | 2 +-
 gen_int64.go       | 2 +-
 gen_int64desc.go   | 2 +-
 gen_intdesc.go     | 2 +-
 gen_ordered.go     | 2 +-
 gen_ordereddesc.go | 2 +-
 gen_string.go      | 2 +-
 gen_stringdesc.go  | 2 +-
 gen_uint.go        | 2 +-
 gen_uint32.go      | 2 +-
 gen_uint32desc.go  | 2 +-
 gen_uint64.go      | 2 +-
 gen_uint64desc.go  | 2 +-
 gen_uintdesc.go    | 2 +-
 skipset.tpl        | 2 +-
 18 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 1c87d41..54a615c 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -156,9 +156,9 @@ func (s *FuncSet[T]) Add(value T) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int.go b/gen_int.go
index 1c0f06d..9280124 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -154,9 +154,9 @@ func (s *IntSet) Add(value int) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int32.go b/gen_int32.go
index d35b998..4f04ca9 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -154,9 +154,9 @@ func (s *Int32Set) Add(value int32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int32desc.go b/gen_int32desc.go
index e3b3187..b05a029 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -154,9 +154,9 @@ func (s *Int32SetDesc) Add(value int32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int64.go b/gen_int64.go
index 2fb0530..adca920 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -154,9 +154,9 @@ func (s *Int64Set) Add(value int64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 7bd45e6..f8f3cd7 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -154,9 +154,9 @@ func (s *Int64SetDesc) Add(value int64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_intdesc.go b/gen_intdesc.go
index 2add73e..c116533 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -154,9 +154,9 @@ func (s *IntSetDesc) Add(value int) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_ordered.go b/gen_ordered.go
index 05d7644..01e38ca 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -154,9 +154,9 @@ func (s *OrderedSet[T]) Add(value T) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 7408ec4..12c9fe4 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -154,9 +154,9 @@ func (s *OrderedSetDesc[T]) Add(value T) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_string.go b/gen_string.go
index b0eccb1..56e32ca 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -154,9 +154,9 @@ func (s *StringSet) Add(value string) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index 139f433..a581e0c 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -154,9 +154,9 @@ func (s *StringSetDesc) Add(value string) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint.go b/gen_uint.go
index 23e689a..c6b3c6b 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -154,9 +154,9 @@ func (s *UintSet) Add(value uint) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint32.go b/gen_uint32.go
index b3f49ed..b970d69 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -154,9 +154,9 @@ func (s *Uint32Set) Add(value uint32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index fdb0151..015bbae 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -154,9 +154,9 @@ func (s *Uint32SetDesc) Add(value uint32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint64.go b/gen_uint64.go
index c0cbc8f..a6fe410 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -154,9 +154,9 @@ func (s *Uint64Set) Add(value uint64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index bf66e05..13ad5e4 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -154,9 +154,9 @@ func (s *Uint64SetDesc) Add(value uint64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 430a8fb..cb028d9 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -154,9 +154,9 @@ func (s *UintSetDesc) Add(value uint) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/skipset.tpl b/skipset.tpl
index 0d1f59c..3dc296f 100644
--- a/skipset.tpl
+++ b/skipset.tpl
@@ -153,9 +153,9 @@ func (s *{{.StructPrefix}}Set{{.StructSuffix}}{{.TypeArgument}}) Add(value {{.Ty
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
-- 
2.43.0

