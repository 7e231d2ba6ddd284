From a75083922e9d3e9f3d2c7d4b0325fa7ef5653fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 001/162] fix: trial key sort reorders conditions along the
 model and segment axes

---
 hyperion/utils/trial_key.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index e1aed9a..f5db874 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -73,11 +73,11 @@ class TrialKey(object):
         self.tar = self.tar[ix]
         self.non = self.non[ix]
         if self.model_cond is not None:
-            self.model_cond = self.model_cond[m_idx]
+            self.model_cond = self.model_cond[:, m_idx]
         if self.seg_cond is not None:
-            self.seg_cond = self.seg_cond[s_idx]
+            self.seg_cond = self.seg_cond[:, s_idx]
         if self.trial_cond is not None:
-            self.trial_cond = self.trial_cond[:, ix]
+            self.trial_cond = self.trial_cond[:, ix[0], ix[1]]
         
         
     def save(self, file_path):
-- 
2.43.0


From 92a4d93b2fcae728fff027ce100728b60603b0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 002/162] fix: trial key filter and split select trial
 conditions of the kept trials

---
 hyperion/utils/trial_key.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index f5db874..9e14777 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -363,7 +363,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[:, ix[0], ix[1]]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
@@ -403,7 +403,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx1]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[:, ix[0], ix[1]]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
-- 
2.43.0


From 5b6ca995ebf1bbade7c7d0e8dda33a3200757d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 003/162] fix: trial key merge keeps segment and trial
 conditions

---
 hyperion/utils/trial_key.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index 9e14777..c547813 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -281,11 +281,11 @@ class TrialKey(object):
                 model_cond_1 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_1[:, mi_a] = model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_1 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_1[:, mi_a] = seg_cond[:, mi_b]
+                seg_cond_1 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_1[:, si_a] = seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_1 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_1[:, ix_a] = trial_cond[:, ix_b]
+                trial_cond_1 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_1[:, ix_a[0], ix_a[1]] = trial_cond[:, ix_b[0], ix_b[1]]
 
                 
             _, mi_a, mi_b = intersect(new_model_set, key_i.model_set,
@@ -302,11 +302,11 @@ class TrialKey(object):
                 model_cond_2 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_2[:, mi_a] = key_i.model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_2 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_2[:, mi_a] = key_i.seg_cond[:, mi_b]
+                seg_cond_2 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_2[:, si_a] = key_i.seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_2 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_2[:, ix_a] = key_i.trial_cond[:, ix_b]
+                trial_cond_2 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_2[:, ix_a[0], ix_a[1]] = key_i.trial_cond[:, ix_b[0], ix_b[1]]
 
             model_set = new_model_set
             seg_set = new_seg_set
@@ -317,7 +317,7 @@ class TrialKey(object):
             if seg_cond is not None:
                 seg_cond = np.logical_or(seg_cond_1, seg_cond_2)
             if trial_cond is not None:
-                trial_cond = np.logical_or(trial_cond_1, seg_cond_2)
+                trial_cond = np.logical_or(trial_cond_1, trial_cond_2)
                             
         return cls(model_set, seg_set, tar, non,
                    model_cond, seg_cond, trial_cond,
-- 
2.43.0


From f8cc39c651f5d7995b8ce87f16c0f2264a4374c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 004/162] fix: trial key comparison with trial conditions

---
 hyperion/utils/trial_key.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index c547813..0b64df5 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -474,7 +474,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             eq = eq and np.all(self.seg_cond == other.seg_cond)
         if self.trial_cond is not None:
-            eq = eq and np.all(self.triall_cond == other.trial_cond)
+            eq = eq and np.all(self.trial_cond == other.trial_cond)
 
         eq = eq and (
             (self.model_cond_name is None) == (other.model_cond_name is None))
@@ -488,7 +488,7 @@ class TrialKey(object):
         if self.seg_cond_name is not None:
             eq = eq and np.all(self.seg_cond_name == other.seg_cond_name)
         if self.trial_cond_name is not None:
-            eq = eq and np.all(self.triall_cond_name == other.trial_cond_name) 
+            eq = eq and np.all(self.trial_cond_name == other.trial_cond_name) 
 
         return eq
 
-- 
2.43.0


From 5d43c7da4e742f7c757cd5c4465d214c7bebfdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 005/162] fix: trial scores filter with keep=False removes
 segments from the segment set

---
 hyperion/utils/trial_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 3cf58e8..60fc267 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -247,7 +247,7 @@ class TrialScores(object):
 
         if not(keep):
             model_set=np.setdiff1d(self.model_set, model_set)
-            seg_set=np.setdiff1d(self.model_set, seg_set)
+            seg_set=np.setdiff1d(self.seg_set, seg_set)
 
         f_mod, mod_idx = ismember(model_set, self.model_set)
         f_seg, seg_idx = ismember(seg_set, self.seg_set)
-- 
2.43.0


From c0ff0e2c73f26f5298ab7169f7fcbec6940f3c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 006/162] fix: trial scores without score matrix can be created

---
 hyperion/utils/trial_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 60fc267..8e8e394 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -311,7 +311,7 @@ class TrialScores(object):
         assert(len(np.unique(self.model_set)) == len(self.model_set))
         assert(len(np.unique(self.seg_set)) == len(self.seg_set))
         if self.scores is None:
-            self.scores = np.zeros((len(model_set), len(seg_set)))
+            self.scores = np.zeros((len(self.model_set), len(self.seg_set)))
         else:
             assert(self.scores.shape ==
                    (len(self.model_set), len(self.seg_set)))
-- 
2.43.0


From 92d3e4e8fa5f2d9892726cd3c558b0b76b081faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 007/162] fix: trial scores merge ignores the values of masked
 out trials

---
 hyperion/utils/trial_scores.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 8e8e394..1652769 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -204,7 +204,7 @@ class TrialScores(object):
             ix_a = np.ix_(mi_a, si_a)
             ix_b = np.ix_(mi_b, si_b)
             scores_1 = np.zeros(shape)
-            scores_1[ix_a] = scores[ix_b]
+            scores_1[ix_a] = scores[ix_b]*score_mask[ix_b]
             score_mask_1 = np.zeros(shape, dtype='bool')
             score_mask_1[ix_a] = score_mask[ix_b]
             
@@ -217,7 +217,7 @@ class TrialScores(object):
             ix_a = np.ix_(mi_a, si_a)
             ix_b = np.ix_(mi_b, si_b)
             scores_2= np.zeros(shape)
-            scores_2[ix_a] = scr_i.scores[ix_b]
+            scores_2[ix_a] = scr_i.scores[ix_b]*scr_i.score_mask[ix_b]
             score_mask_2 = np.zeros(shape, dtype='bool')
             score_mask_2[ix_a] = scr_i.score_mask[ix_b]
 
-- 
2.43.0


From 172180784b5d92ea12eab764259a165e4e815445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 008/162] fix: script list built from python list of ranges

---
 hyperion/utils/scp_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index f26a932..49e3348 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -52,7 +52,7 @@ class SCPList(object):
                 self.range_spec = None
             else:
                 if isinstance(self.range_spec, list):
-                    self.range_spec = np.array(self.offset, dtype=np.int64)
+                    self.range_spec = np.array(self.range_spec, dtype=np.int64)
                 assert len(self.key) == self.range_spec.shape[0]
                 assert self.range_spec.shape[1] == 2
 
-- 
2.43.0


From 31ce8c59493f2ff28ddf5f1515a74539b5f4a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 009/162] fix: script list reports missing data positions in
 any entry

---
 hyperion/utils/scp_list.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index 49e3348..c36a358 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -194,10 +194,12 @@ class SCPList(object):
         file_offset = [f[0].split(sep=offset_sep, maxsplit=1) for f in file_range]
         file_path = [f[0] for f in file_offset]
         
-        if len(file_offset[0]) == 2:
-            offset = [int(f[1]) if len(f)==2 else -1 for f in file_offset]
-            if -1 in offset:
-                raise ValueError('Missing data position for %s' % f[0])
+        has_offset = [len(f) == 2 for f in file_offset]
+        if any(has_offset):
+            if not all(has_offset):
+                raise ValueError('Missing data position for %s'
+                                 % file_path[has_offset.index(False)])
+            offset = [int(f[1]) for f in file_offset]
 
         do_range = False
         for f in file_range:
-- 
2.43.0


From 827a252650a73889db288dbdefed0af703820913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 010/162] fix: utt2info info of tables with several fields

---
 hyperion/utils/utt2info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index 4bd1adc..db38007 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -70,7 +70,7 @@ class Utt2Info(object):
     @property
     def info(self):
         if self.utt_info.shape[1] > 2:
-            return np.asarray(self.utt_info[1:])
+            return np.asarray(self.utt_info.iloc[:, 1:])
         else:
             return np.asarray(self.utt_info[1])
 
-- 
2.43.0


From a401dfec72f282f01f70d28a509b5fe5504238cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 011/162] fix: length of fold list

---
 hyperion/utils/fold_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index 71b6750..bb2c4a4 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -59,7 +59,7 @@ class FoldList(object):
     def __len__(self):
         """Returns number of folds.
         """
-        return self.num_folds()
+        return self.num_folds
 
 
     @property
-- 
2.43.0


From ac616d2435a9eed3fd16c403a0c233b0125e4f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 012/162] fix: train/val/eval list returns the keys of a part

---
 hyperion/utils/train_val_eval_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index eba6f55..ecf65f3 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -131,8 +131,8 @@ class TrainValEvalList(object):
           test_key: Keys of the elements used for test
         """
 
-        train_idx, test_idx = self.get_part_idx(part)
-        return self.key[train_idx], self.key[test_idx]
+        idx = self.get_part_idx(part)
+        return self.key[idx]
 
 
     
-- 
2.43.0


From e6ea111b45d8ee6654506cbe2b9128271dc735fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 013/162] fix: train/val/eval list with part names can be saved
 and loaded

---
 hyperion/utils/train_val_eval_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index ecf65f3..095800e 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -163,7 +163,7 @@ class TrainValEvalList(object):
                 if self.part_names is None:
                     f.write('%s%s%d\n' % (k,sep,p))
                 else:
-                    f.write('%s%s%d%s\n' % (k,sep,p,self.part_names[p]))
+                    f.write('%s%s%d%s%s\n' % (k,sep,p,sep,self.part_names[p]))
 
 
                     
@@ -186,7 +186,7 @@ class TrainValEvalList(object):
         if len(fields[0]) == 2:
             part_names = None
         else:
-            part_names = np.asarray([f[2] for f in fields], dtype=int)
+            part_names = np.asarray([f[2] for f in fields])
             _, part_idx = np.unique(part, return_index=True)
             part_names = part_names[part_idx]
             
-- 
2.43.0


From 50d797ed3b04dbd9ee57c063435557bc5bbbff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 014/162] fix: fold and part lists with classes completely
 masked out

---
 hyperion/utils/fold_list.py           | 2 ++
 hyperion/utils/train_val_eval_list.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index bb2c4a4..c0d852a 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -213,6 +213,8 @@ class FoldList(object):
         for i in xrange(num_classes):
             
             idx_i = (balance_by_key == i).nonzero()[0]
+            if len(idx_i) == 0:
+                continue
             group_key_i = group_by_key[idx_i]
             _, group_key_i = np.unique(group_key_i, return_inverse=True)
             num_groups_i = np.max(group_key_i) + 1
diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index 095800e..00671b9 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -246,6 +246,8 @@ class TrainValEvalList(object):
         for i in xrange(num_classes):
             
             idx_i = (balance_by_key == i).nonzero()[0]
+            if len(idx_i) == 0:
+                continue
             group_key_i = group_by_key[idx_i]
             _, group_key_i = np.unique(group_key_i, return_inverse=True)
             num_groups_i = np.max(group_key_i) + 1
-- 
2.43.0


From e736a47f38acea6d89c4e97106a93e1b746ecc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 015/162] fix: fold list can be saved

---
 hyperion/utils/fold_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index c0d852a..d12f74e 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -150,8 +150,8 @@ class FoldList(object):
           sep: Separator between fold field and key field
         """
         with open(file_path, 'w') as f:
-            for f,k in zip(self.fold, self.key):
-                f.write('%s%s%s\n' % (f,sep,k))
+            for fold,k in zip(self.fold, self.key):
+                f.write('%s%s%s\n' % (fold,sep,k))
 
 
     @classmethod
-- 
2.43.0


From d83f494aa13055b0e0bcf645716751613c824465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 016/162] fix: segment lists can be created from arrays

---
 hyperion/utils/segment_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 6819738..c9868a8 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -43,7 +43,7 @@ class SegmentList(object):
         
     @classmethod
     def create(cls, segment_id, file_id, tbeg, tend, index_by_file=True):
-        segments = pd.Dataframe({'segment_id': segment_id,
+        segments = pd.DataFrame({'segment_id': segment_id,
                                  'file_id': file_id,
                                  'tbeg': tbeg,
                                  'tend': tend})
-- 
2.43.0


From 7de2fcbdf74b0b55ba7ecefc077f9ee981a54e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 017/162] fix: binary VAD of segment lists

---
 hyperion/utils/segment_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index c9868a8..f32741b 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -5,7 +5,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import division
-#from six.moves import xrange
+from six.moves import xrange
 from six import string_types
 
 #import os.path as path
@@ -297,11 +297,11 @@ class SegmentList(object):
 
         if num_frames is None:
             if self.index_by_file:
-                num_frames=tend[-1]
+                num_frames=np.max(tend)
             else:
                 file_id = self.segments.loc[key]['file_id']
                 sel_idx = self.segments['file_id'] == file_id
-                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/self.frame_shift))
+                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/frame_shift))
                 
         tend = np.minimum(num_frames-1, tend)                
         vad = np.zeros((num_frames,), dtype=int)
-- 
2.43.0


From dd4df4f309ab14d93715cd4e49b15fec82f3ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 018/162] fix: segment list access to files with one segment
 and by position

---
 hyperion/utils/segment_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index f32741b..abbecc3 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -110,7 +110,7 @@ class SegmentList(object):
         """Returns segments_ids corresponding to a given file_id
         """
         if self.index_by_file:
-            return np.asarray(self.segments.loc[file_id]['segment_id'])
+            return np.asarray(self.segments.loc[[file_id]]['segment_id'])
         index = self.segments['file_id']==file_id
         return np.asarray(self.segments.loc[index]['segment_id'])
         
@@ -163,7 +163,7 @@ class SegmentList(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return SegmentList(df, index_by_file=False)
         else:
             return self.segments.loc[key]
@@ -184,7 +184,7 @@ class SegmentList(object):
         """
         if self.index_by_file:
             if index < len(self.uniq_file_id):
-                return self.getitem_by_key(self.uniq_file_id[self.iter_idx])
+                return self.getitem_by_key(self.uniq_file_id[index])
             else:
                 raise Exception('SegmentList error index>=num_files (%d,%d)' % (index,len(self.uniq_file_id)))
         else:
-- 
2.43.0


From 504cc01911d1e6d2b60221e03337fdd40c37ab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 019/162] fix: rttm access to files with one segment

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 3abbdb6..39a3520 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -261,7 +261,7 @@ class RTTM(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return RTTM(df, index_by_file=False)
         else:
             return self.segments.iloc[key]
-- 
2.43.0


From 1d269f979eb33771a130366da7f73eda768464f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 020/162] fix: rttm without durations

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 39a3520..b5881e5 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -52,7 +52,7 @@ class RTTM(object):
         if tbeg is None:
             tbeg = nans
         if tdur is None:
-            tend = nans
+            tdur = nans
         if ortho is None:
             ortho = nans
         if stype is None:
-- 
2.43.0


From 8b7d9f4f29830df8bf8b01c18a6dadd1527d5c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 021/162] fix: rttm filter with keep=False

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index b5881e5..0d48159 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -304,7 +304,7 @@ class RTTM(object):
     def filter(self, filter_key, keep=True):
         if not keep :
             filter_key = np.setdiff1d(
-                np.asrray(self.segments.index), filter_key)
+                np.asarray(self.segments.index), filter_key)
         df = self.segments.loc[filter_key]
         return RTTM(df, index_by_file=self.index_by_file)
     
-- 
2.43.0


From 0688e88e5c92fc9e141c9c9a848388e8c4cd336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 022/162] fix: rttm split

---
 hyperion/utils/rttm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 0d48159..3c08332 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -311,7 +311,9 @@ class RTTM(object):
 
     
     def split(self, idx, num_parts):
-        key, _ = split_list(self.index, idx, num_parts)
+        key, _ = split_list(
+            self.unique_file_id if self.index_by_file
+            else np.asarray(self.segments.index), idx, num_parts)
         df = self.segments.loc[key]
         return RTTM(df, index_by_file=self.index_by_file)
 
-- 
2.43.0


From 82857268de32c19c8e04c5ce0269a6dd02d883e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 023/162] fix: rttm index can be changed

---
 hyperion/utils/rttm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 3c08332..a9e4266 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -151,9 +151,9 @@ class RTTM(object):
     def index_by_file(self, value):
         self._index_by_file = value
         if self._index_by_file:
-            self.segments.index = self.segments.file_key
+            self.segments.index = self.segments.file_id
         else:
-            self.segments.index = self.segments.segment
+            self.segments.index = [i for i in xrange(len(self.segments))]
         
     
             
-- 
2.43.0


From 7ad6bdac0a3442931f5db8922ffa79e591c621a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 024/162] fix: rttm contains

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index a9e4266..2f78d73 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -243,7 +243,7 @@ class RTTM(object):
     
     def __contains__(self, key):
         """ Returns True if the segments contains the key"""
-        return key in self.segments.segment_id
+        return key in self.segments.index
 
 
     
-- 
2.43.0


From 9d6e49b295a4da18c8cf9e6bf509f005b14d9b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 025/162] fix: rttm merge of adjacent segments keeps the end of
 the longest one

---
 hyperion/utils/rttm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 2f78d73..f9b025e 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -344,7 +344,8 @@ class RTTM(object):
         for i in xrange(len(self.segments)-1, 0, -1):
             if index.iloc[i]:
                 tbeg = segm.iloc[i-1].tbeg
-                tend = segm.iloc[i].tbeg + segm.iloc[i].tdur
+                tend = max(segm.iloc[i-1].tbeg + segm.iloc[i-1].tdur,
+                           segm.iloc[i].tbeg + segm.iloc[i].tdur)
                 self.segments.iloc[i-1, self.segments.columns.get_loc('tdur')] = tend - tbeg
                 self.segments.iloc[i, self.segments.columns.get_loc('segment_type')] = 'DROP'
         #logging.debug(self.segments[ix])
-- 
2.43.0


From 7da378fe6876d026bc4c600a5131dac3942f046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 026/162] fix: opt_loglr maps equal scores to equal llr

---
 hyperion/metrics/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 00053a2..9c936f8 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -149,7 +149,9 @@ def opt_loglr(tar, non, method='laplace'):
     post_log_odds = np.log(p_opt) - np.log(1-p_opt)
     prior_log_odds = np.log(ntar/nnon)
     llr = post_log_odds - prior_log_odds
-    llr += 1e-6 * np.arange(n)/n
+    # small slope that keeps the order of the scores, equal scores keep equal llr
+    scores = scores[sort_idx]
+    llr += 1e-6 * np.searchsorted(scores, scores)/n
 
     llr[sort_idx] = llr
     tar_llr = llr[:ntar]
-- 
2.43.0


From 15c4316db9e43019b5cdf919d2885b3ef4d8ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 027/162] fix: sign of the non-target scores in Cllr

---
 hyperion/metrics/cllr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/cllr.py b/hyperion/metrics/cllr.py
index fd9ce0e..1c1b9b2 100644
--- a/hyperion/metrics/cllr.py
+++ b/hyperion/metrics/cllr.py
@@ -25,7 +25,7 @@ def compute_cllr(tar, non):
 
     """
     c1 = np.mean(neglogsigmoid(tar))/np.log(2)
-    c2 = np.mean(neglogsigmoid(non))/np.log(2)
+    c2 = np.mean(neglogsigmoid(-non))/np.log(2)
 
     return (c1 + c2)/2
 
-- 
2.43.0


From 060e59375e036edfe4291c4477b28d6b9b1adafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 028/162] fix: filter_roc returns the filtered curve with its
 last point

---
 hyperion/metrics/roc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index 80b6be9..b096fc0 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -164,8 +164,8 @@ def filter_roc(p_miss,p_fa):
                             input vectors.  
     """
     out = 0
-    new_p_miss = np.copy(p_miss)
-    new_p_fa = np.copy(p_fa)
+    new_p_miss = np.append(p_miss, p_miss[-1])
+    new_p_fa = np.append(p_fa, p_fa[-1])
 
     for i in xrange(1,len(p_miss)):
         if p_miss[i] == new_p_miss[out] or p_fa[i] == new_p_fa[out]:
@@ -180,8 +180,8 @@ def filter_roc(p_miss,p_fa):
     out = out+1
     new_p_miss[out] = p_miss[-1]
     new_p_fa[out] = p_fa[-1]
-    new_p_miss = new_p_miss[:out]
-    new_p_fa = new_fa[:out]
+    new_p_miss = new_p_miss[:out+1]
+    new_p_fa = new_p_fa[:out+1]
 
     return new_p_miss, new_p_fa
 
-- 
2.43.0


From ae2ea4b559aa5f800e1018d70f01dbc58421c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 029/162] fix: compute_area_under_rocch integrates each segment

---
 hyperion/metrics/roc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index b096fc0..a9417c6 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -204,7 +204,7 @@ def compute_area_under_rocch(p_miss, p_fa):
     
     auc = 0
     for i in xrange(1, len(p_miss)):
-        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i+1])
+        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i-1] + p_fa[i])
 
     return auc
 
-- 
2.43.0


From d4b56fca6130d72a655ba21cbe947d7a35f83773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 030/162] fix: cross-label confusion matrix for string labels
 and arbitrary integer labels, without modifying the inputs

---
 hyperion/metrics/confusion_matrix.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 8789d6b..78d3a6e 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -7,6 +7,8 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import sys
+
 import numpy as np
 import matplotlib.pyplot as plt
 from sklearn.metrics import confusion_matrix
@@ -67,16 +69,17 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
     else:
         labels_test = list2ndarray(labels_test)
 
-    assert y_true.dtype == y_pred.dtype, 'y_true and y_pred labels does not have the same type'
-    assert labels_train.dtype == labels_test.dtype, 'Train and test labels does not have the same type'
-    assert labels_train.dtype == y_pred.dtype, 'Labels, y_true and y_pred does not have the same type'
+    assert y_true.dtype.kind == y_pred.dtype.kind, 'y_true and y_pred labels does not have the same type'
+    assert labels_train.dtype.kind == labels_test.dtype.kind, 'Train and test labels does not have the same type'
+    assert labels_train.dtype.kind == y_pred.dtype.kind, 'Labels, y_true and y_pred does not have the same type'
 
     num_classes_test = len(labels_test)
     
     if issubclass(y_true.dtype.type, np.integer):
-        y_pred += num_classes_test
-    elif issubclass(y_true.dtype.type, np.dtype('U')) or issubclass(
-    y_true.dtype.type, np.dtype('S')): 
+        # the shifted train labels must be different from the test labels
+        shift = np.max(labels_test) + 1 - np.min(labels_train)
+        y_pred = y_pred + shift
+    elif issubclass(y_true.dtype.type, np.str_):
         y_true = np.asarray(['TEST_' + s for s in y_true])
         y_pred = np.asarray(['TRAIN_' + s for s in y_pred])
     else:
@@ -84,9 +87,8 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
 
 
     if issubclass(labels_train.dtype.type, np.integer):
-        labels_train += num_classes_test
-    elif issubclass(labels_train.dtype.type, np.dtype('U')) or issubclass(
-    labels_train.dtype.type, np.dtype('S')): 
+        labels_train = labels_train + shift
+    elif issubclass(labels_train.dtype.type, np.str_):
         labels_test = np.asarray(['TEST_' + s for s in labels_test])
         labels_train = np.asarray(['TRAIN_' + s for s in labels_train])
     else:
-- 
2.43.0


From f99185e9405574bd8dd9134be1f6d71074b8497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 031/162] fix: compute_act_dcf with repeated priors

---
 hyperion/metrics/dcf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperion/metrics/dcf.py b/hyperion/metrics/dcf.py
index d6dd9c5..91dd3d3 100644
--- a/hyperion/metrics/dcf.py
+++ b/hyperion/metrics/dcf.py
@@ -100,12 +100,16 @@ def compute_act_dcf(tar, non, prior, normalize=True):
     #thresholds
     t = - np.log(prior) + np.log(1-prior)
 
+    # rank of each threshold among the thresholds (priors can be repeated)
+    rt = np.zeros((num_priors,), dtype='int32')
+    rt[np.argsort(t, kind='mergesort')] = np.arange(1, num_priors + 1)
+
     ttar = np.concatenate((t, tar))
     ii = np.argsort(ttar, kind='mergesort')
     r = np.zeros((num_priors + ntar), dtype='int32')
     r[ii] = np.arange(1, num_priors + ntar + 1)
     r = r[:num_priors]
-    n_miss = r - np.arange(num_priors, 0, -1)
+    n_miss = r - rt
 
     
     tnon = np.concatenate((t, non))
@@ -113,7 +117,7 @@ def compute_act_dcf(tar, non, prior, normalize=True):
     r = np.zeros((num_priors + nnon), dtype='int32')
     r[ii] = np.arange(1, num_priors + nnon + 1)
     r = r[:num_priors]
-    n_fa = nnon - r + np.arange(num_priors, 0, -1)
+    n_fa = nnon - r + rt
 
     # n_miss2 = np.zeros((num_priors,), dtype='int32')
     # n_fa2 = np.zeros((num_priors,), dtype='int32')
-- 
2.43.0


From 16dc19bf5f83c61518e1736af80889c0f893a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 032/162] fix: opt_loglr returns the llr to the order of the
 scores through a copy

---
 hyperion/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 9c936f8..a502261 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -153,7 +153,7 @@ def opt_loglr(tar, non, method='laplace'):
     scores = scores[sort_idx]
     llr += 1e-6 * np.searchsorted(scores, scores)/n
 
-    llr[sort_idx] = llr
+    llr[sort_idx] = np.copy(llr)
     tar_llr = llr[:ntar]
     non_llr = llr[ntar:]
     
-- 
2.43.0


From 245f27de1a81148404414864ee47c0aca42d7922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 033/162] fix: MeanVarianceNorm.filter_args without
 no_norm_mean

---
 hyperion/feats/feature_normalization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/feats/feature_normalization.py b/hyperion/feats/feature_normalization.py
index c78dde5..dfbd2e4 100644
--- a/hyperion/feats/feature_normalization.py
+++ b/hyperion/feats/feature_normalization.py
@@ -230,8 +230,9 @@ class MeanVarianceNorm(object):
         neg_args2 = ('norm_mean',)
 
         for a,b in zip(neg_args1, neg_args2):
-            d[b] = not d[a]
-            del d[a]
+            if a in d:
+                d[b] = not d[a]
+                del d[a]
 
         return d
 
-- 
2.43.0


From cfe81c63a6324d973a644520a0666994ecbe21d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 034/162] fix: variance floor in the global normalization, as
 in the sliding window

---
 hyperion/feats/feature_normalization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/feats/feature_normalization.py b/hyperion/feats/feature_normalization.py
index dfbd2e4..dba60a7 100644
--- a/hyperion/feats/feature_normalization.py
+++ b/hyperion/feats/feature_normalization.py
@@ -45,6 +45,7 @@ class MeanVarianceNorm(object):
 
         if self.norm_var:
             s_x = np.std(x, axis=0, keepdims=True)
+            s_x[s_x<np.sqrt(1e-5)] = np.sqrt(1e-5)
             x = x/s_x
 
         return x
-- 
2.43.0


From 21f4f4a6a910410faa5cee03f329722bfb85864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 035/162] fix: FrameSelector.filter_args returns tol_num_frames

---
 hyperion/feats/frame_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/frame_selector.py b/hyperion/feats/frame_selector.py
index 24f3cae..77cea7f 100644
--- a/hyperion/feats/frame_selector.py
+++ b/hyperion/feats/frame_selector.py
@@ -66,7 +66,7 @@ class FrameSelector(object):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('tol_num_frames')
+        valid_args = ('tol_num_frames',)
 
         d = dict((k, kwargs[p+k])
                  for k in valid_args if p+k in kwargs)
-- 
2.43.0


From 56477f9dad5ce406a676616ca703f0baa23a6712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 036/162] fix: EnergyVAD with frame context, return_loge and
 argument parser

---
 hyperion/feats/energy_vad.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 803541a..5c1623b 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -13,6 +13,7 @@ import numpy as np
 from scipy.signal import lfilter
 
 from ..hyp_defs import float_cpu
+from ..utils.misc import str2bool
 from .stft import st_logE
 
 
@@ -105,28 +106,24 @@ class EnergyVAD(object):
             
 
         # compute VAD from logE
-        print(np.mean(logE))
         e_thr = self.vad_energy_threshold + self.vad_energy_mean_scale * np.mean(logE)
-        print(e_thr)
-        print(logE)
         vad = (logE > e_thr)
 
         context = self.vad_frames_context
         if context == 0:
+            if return_loge:
+                return vad, logE
             return vad
  
-        window = 2*context + 1
-        if len(vad0) < window:
-            context = int(len(vad0)-1/2)
-
-        h = np.ones((window,), dtype='float32')
-        num_count = np.convolve(vad.astype('float32'), h, 'same')
-        den_count_boundary = np.arange(context+1, window, dtype='float32')
-        num_count[:context] /= den_count_boundary
-        num_count[-context:] /= den_count_boundary[::-1]
-        num_count[context:-context] /= window
+        # proportion of frames above the threshold in the part of the window inside of the file
+        num_frames = len(vad)
+        h = np.ones((2*context + 1,), dtype=float_cpu())
+        num_count = np.convolve(vad.astype(float_cpu()), h)[context:context+num_frames]
+        den_count = np.convolve(np.ones((num_frames,), dtype=float_cpu()), h)[context:context+num_frames]
         
-        vad = num_count > self.vad_proportion_threshold
+        vad = num_count/den_count > self.vad_proportion_threshold
+        if return_loge:
+            return vad, logE
         return vad
         
     
-- 
2.43.0


From 2cdb66ac1f7c688dba93eba118ce42ee06963fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 037/162] fix: load_params of Normal, NormalDiagCov and
 GMMDiagCov

---
 hyperion/pdfs/core/normal.py           | 2 +-
 hyperion/pdfs/core/normal_diag_cov.py  | 2 +-
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 39342a5..110ce6e 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -207,7 +207,7 @@ class Normal(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 6048f80..7575143 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -173,7 +173,7 @@ class NormalDiagCov(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 266a95a..6d1f4a1 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -249,7 +249,7 @@ class GMMDiagCov(ExpFamilyMixture):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['pi', 'mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'], pi=params['pi'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
-- 
2.43.0


From 3e34f3057b62fa31fc828c27a0793a2ba8adc651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 038/162] fix: accumulation of weighted statistics keeps the
 statistics given

---
 hyperion/pdfs/core/exp_family.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index f252af2..87f0d1f 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -84,7 +84,7 @@ class ExpFamily(PDF):
         if sample_weight is None:
             N = u_x.shape[0]
         else:
-            u_x *= sample_weight[:, None]
+            u_x = u_x * sample_weight[:, None]
             N = np.sum(sample_weight)
         acc_u_x = np.sum(u_x, axis=0)
         return N, acc_u_x
-- 
2.43.0


From 8ff1aa4c7364df087fa8a68164b07376631391fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 039/162] fix: sum of sufficient statistics

---
 hyperion/pdfs/core/exp_family.py             | 8 ++++----
 hyperion/pdfs/mixtures/exp_family_mixture.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index 87f0d1f..bd04fee 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -111,11 +111,11 @@ class ExpFamily(PDF):
     
     def add_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
     
diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 72608bf..f50c1d3 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -407,11 +407,11 @@ class ExpFamilyMixture(PDF):
     
     def sum_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
 
-- 
2.43.0


From fe1977a702365d87aa3273360d9a6272a14644f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 040/162] fix: Normal.norm_suff_stats whitens the statistics

---
 hyperion/pdfs/core/normal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 110ce6e..072441e 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -121,12 +121,12 @@ class Normal(ExpFamily):
         assert self.is_init
         
         F, S = self.unstack_suff_stats(u_x)
-        F_norm = np.dot(F-N*self.mu, self.cholLambda.T)
+        F_norm = np.dot(F-N*self.mu, self.cholLambda)
         if return_order2:
-            SS = vec2symat(S)
-            Fmu = np.outer(self.F, self.mu)
+            SS = vec2symmat(S)
+            Fmu = np.outer(F, self.mu)
             SS = SS-Fmu-Fmu.T+N*np.outer(self.mu,self.mu)
-            SS = np.dot(self.cholLambda, np.dot(SS, self.cholLambda.T))
+            SS = np.dot(self.cholLambda.T, np.dot(SS, self.cholLambda))
             S = symmat2vec(SS)
             return N, self.stack_suff_stats(F_norm, S)
         return N, F_norm
-- 
2.43.0


From c00fb27f1c506f2f51e982c702b92d038e17d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 041/162] fix: GMM.norm_suff_stats whitens the statistics

---
 hyperion/pdfs/mixtures/gmm.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index d84b230..a86fe78 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -153,16 +153,17 @@ class GMM(ExpFamilyMixture):
     def norm_suff_stats(self, N, u_x, return_order2=False):
         F, S = self.unstack_suff_stats(u_x)
         F_norm = F - N[:,None]*self.mu
+        S_norm = np.zeros_like(S)
         for k in xrange(self.num_comp):
-            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k].T)
+            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k])
             if return_order2:
-                SS = vec2symat(S[k])
-                Fmu = np.outer(self.F[k], self.mu[k])
-                SS = SS-Fmu-Fmu.T+N*np.outer(self.mu[k],self.mu[k])
-                SS = np.dot(self.cholLambda[k], np.dot(SS, self.cholLambda[k].T))
-                S[k] = symmat2vec(SS)
+                SS = vec2symmat(S[k])
+                Fmu = np.outer(F[k], self.mu[k])
+                SS = SS-Fmu-Fmu.T+N[k]*np.outer(self.mu[k],self.mu[k])
+                SS = np.dot(self.cholLambda[k].T, np.dot(SS, self.cholLambda[k]))
+                S_norm[k] = symmat2vec(SS)
         if return_order2:
-            return N, self.stack_suff_stats(F_norm, S)
+            return N, self.stack_suff_stats(F_norm, S_norm)
         return N, F_norm
 
     
-- 
2.43.0


From 91d27eb27e9a0be4439600467dd8012688f997fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 042/162] fix: GMMDiagCov.norm_suff_stats

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 6d1f4a1..b71f0e3 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -132,10 +132,10 @@ class GMMDiagCov(ExpFamilyMixture):
 
     
     def norm_suff_stats(self, N, u_x, return_order2=False):
-        F, S = self.unstack_suff_stats(acc_u_x)
+        F, S = self.unstack_suff_stats(u_x)
         F_norm = self.cholLambda*(F-N[:,None]*self.mu)
         if return_order2:
-            S=S-2*self.mu*F+N*self.mu**2
+            S=S-2*self.mu*F+N[:,None]*self.mu**2
             S *= self.Lambda
             return N, self.stack_suff_stats(F_norm, S)    
 
-- 
2.43.0


From 7b76ed0c473feac343145a6f37b70c75c425bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 043/162] fix: weights in the M step of the mixtures

---
 hyperion/pdfs/mixtures/gmm.py               | 5 +++++
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 8 +++++---
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 6 +++---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index a86fe78..a19eba5 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -182,6 +182,7 @@ class GMM(ExpFamilyMixture):
                 C[k] -= np.outer(self.mu[k],self.mu[k])
             Sfloor = self.var_floor*np.mean(C, axis=0)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
+            self.Lambda = np.zeros_like(C)
             for k in xrange(self.num_comp):
                 C[k] = fullcov_varfloor(C[k], cholfloor, F_is_chol=True)
                 self.Lambda[k] = invert_pdmat(C[k], return_inv=True)[-1]
@@ -189,6 +190,10 @@ class GMM(ExpFamilyMixture):
             self._logLambda = None
             self._cholLambda = None
 
+        if self.update_pi:
+            self.pi = N/np.sum(N)
+            self._log_pi = None
+
         self._compute_nat_params()
 
 
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index b71f0e3..41904ce 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -162,10 +162,12 @@ class GMMDiagCov(ExpFamilyMixture):
         if self.update_pi:
             N0 = N < self.min_N
             if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
+                N = np.where(N0, 0, N)
+                self.mu = np.where(N0[:,None], 0, self.mu)
+                self.Lambda = np.where(N0[:,None], 1, self.Lambda)
+                self._Sigma = None
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index a528c76..326869d 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -95,10 +95,10 @@ class GMMTiedDiagCov(GMMDiagCov):
         if self.update_pi:
             N0 = N < self.min_N
             if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
+                N = np.where(N0, 0, N)
+                self.mu = np.where(N0[:,None], 0, self.mu)
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
-- 
2.43.0


From 5709f6e26864e29a9cffc1f7a4a6007a7d793314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 044/162] fix: accumulation of time sorted statistics in
 batches or with one segment

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index f50c1d3..9d75565 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -299,8 +299,6 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
 
         if u_x is None:
             u_x = self.compute_suff_stats(x)
@@ -335,9 +333,6 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
-
         num_segments_per_batch = np.floor((num_frames-frame_length)/frame_shift + 1)
         batch_size = int((num_segments_per_batch-1)*frame_shift+frame_length)
         batch_shift = int(num_segments_per_batch*frame_shift)
@@ -347,7 +342,7 @@ class ExpFamilyMixture(PDF):
         
         sw_i = None
         cur_segment=0
-        for i1 in xrange(0, x.shape[0], batch_shift):
+        for i1 in xrange(0, num_segments*frame_shift, batch_shift):
             i2 = np.minimum(i1+batch_size, x.shape[0])
             x_i = x[i1:i2,:]
             if sample_weight is not None:
-- 
2.43.0


From 9392938a3d63fe181aead801fc5d9109033722e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 045/162] fix: validation elbo normalized by the number of
 validation frames

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 9d75565..3b7fa1d 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -84,7 +84,7 @@ class ExpFamilyMixture(PDF):
         if x_val is None:
             return elbo, elbo/x.shape[0]
         else:
-            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x.shape[0]
+            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x_val.shape[0]
 
 
         
-- 
2.43.0


From 5bb3cd5759d4f98ab79af188260e4f5abc8548b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 046/162] fix: log_prob_nbest uses the best components of each
 frame

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 3b7fa1d..01711f6 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -452,7 +452,7 @@ class ExpFamilyMixture(PDF):
             return self.log_prob_nbest_nat(
                 x, u_x, nbest_mode=nbest_mode, nbest=nbest)
         else:
-            return self.log_prob_std(
+            return self.log_prob_nbest_std(
                 x, nbest_mode=nbest_mode, nbest=nbest)
 
 
@@ -465,10 +465,10 @@ class ExpFamilyMixture(PDF):
         if nbest_mode == 'master':
             assert(isinstance(nbest, int))
             llk_k = np.dot(u_x, self.eta.T) - self.A + self.log_pi
-            nbest = np.argsort(llk_k)[:-(nbest+1):-1]
-            llk_k = llk_k[nbest]
+            nbest = np.argsort(llk_k, axis=-1)[:,:-(nbest+1):-1]
+            llk_k = np.take_along_axis(llk_k, nbest, axis=-1)
         else:
-            llk_k = np.dot(u_x, self.eta[nbest,:].T) - self.A + self.log_pi
+            llk_k = np.dot(u_x, self.eta[nbest,:].T) - self.A[nbest] + self.log_pi[nbest]
         llk = logsumexp(llk_k)
         return self.log_h(x) + llk
         
-- 
2.43.0


From 17b9e2c721e8661b352b211b2b0354e5c32da5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 047/162] fix: GMM.split_comp, get_config and compute_std

---
 hyperion/pdfs/mixtures/gmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index a19eba5..9dfb9db 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -207,7 +207,7 @@ class GMM(ExpFamilyMixture):
         
         for g in xrange(self.num_comp):
             w, v = la.eigh(self.Sigma[g])
-            v *= np.sqrt(v)
+            v *= np.sqrt(w)
             if K==2:
                 std_dev = np.sum(v, axis=1)
                 mu[2*g] += std_dev
@@ -256,7 +256,7 @@ class GMM(ExpFamilyMixture):
         config = {'var_floor': self.var_floor,
                   'update_mu': self.update_mu,
                   'update_lambda': self.update_Lambda }
-        base_config = super(DiagGMM, self).get_config()
+        base_config = super(GMM, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
 
@@ -378,7 +378,7 @@ class GMM(ExpFamilyMixture):
     def compute_std(eta):
         x_dim = Normal.compute_x_dim_from_eta(eta)
         mu = np.zeros((eta.shape[0], x_dim), dtype=float_cpu())
-        Lambda = np.zeros((eta.shape[0], x_dim, x_dim), dtype='float32')
+        Lambda = np.zeros((eta.shape[0], x_dim, x_dim), dtype=float_cpu())
         for k in xrange(eta.shape[0]):
             mu[k], Lambda[k] = Normal.compute_std(eta[k])
 
-- 
2.43.0


From 3cb6f30800fd5f2bfb470ebb69b509fd2d3f2436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 048/162] fix: split_comp keeps the training options of the
 mixture

---
 hyperion/pdfs/mixtures/gmm.py               | 6 ++++--
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 6 ++++--
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 9dfb9db..8f9ecdb 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -218,8 +218,10 @@ class GMM(ExpFamilyMixture):
                     std_dev = np.sum(v*factor, axis=1)
                     mu[K*g+k] += std_dev
 
-        config = self.get_config()
-        return GMM(pi=pi, mu=mu, Lambda=Lambda, **config)
+        return GMM(x_dim=self.x_dim, pi=pi, mu=mu, Lambda=Lambda,
+                   var_floor=self.var_floor, min_N=self.min_N,
+                   update_pi=self.update_pi, update_mu=self.update_mu,
+                   update_Lambda=self.update_Lambda, name=self.name)
     
 
         
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 41904ce..28459cf 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -190,8 +190,10 @@ class GMMDiagCov(ExpFamilyMixture):
                 factor = 2*(np.random.uniform(size=std_dev.shape) > 0.5) - 1 
                 mu[k::K] += factor*std_dev
 
-        config = self.get_config()
-        return GMMDiagCov(pi=pi, mu=mu, Lambda=Lambda, **config)
+        return GMMDiagCov(x_dim=self.x_dim, pi=pi, mu=mu, Lambda=Lambda,
+                          var_floor=self.var_floor, min_N=self.min_N,
+                          update_pi=self.update_pi, update_mu=self.update_mu,
+                          update_Lambda=self.update_Lambda, name=self.name)
         
 
     
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 326869d..92ded09 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -120,8 +120,10 @@ class GMMTiedDiagCov(GMMDiagCov):
                 factor = 2*(np.random.uniform(size=std_dev.shape) > 0.5) - 1 
                 mu[k::K] += factor*std_dev
 
-        config = self.get_config()
-        return DiagGMMTiedCov(pi=pi, mu=mu, Lambda=self.Lambda, **config)
+        return DiagGMMTiedCov(x_dim=self.x_dim, pi=pi, mu=mu, Lambda=self.Lambda,
+                              var_floor=self.var_floor, min_N=self.min_N,
+                              update_pi=self.update_pi, update_mu=self.update_mu,
+                              update_Lambda=self.update_Lambda, name=self.name)
         
 
     
-- 
2.43.0


From 06d8b1dedaf503d10081f05fef4a883d0eab7f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 049/162] fix: initialization of one component GMMTiedDiagCov

---
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 92ded09..4468859 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -56,7 +56,7 @@ class GMMTiedDiagCov(GMMDiagCov):
         if num_comp==1:
             self.pi=np.array([1], dtype=float_cpu())
             self.mu=np.mean(x, axis=0, keepdims=True)
-            self.Lambda=1/np.std(x, axis=0, keepdims=True)**2
+            self.Lambda=1/np.std(x, axis=0)**2
             return
 
         kmeans = KMeans(num_clusters=num_comp)
-- 
2.43.0


From 9df714e64b28dbbca89b1cde7d5ad4458a4b45a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 050/162] fix: covariance in the M step when the means are not
 updated

---
 hyperion/pdfs/core/normal.py                | 3 ++-
 hyperion/pdfs/core/normal_diag_cov.py       | 2 +-
 hyperion/pdfs/mixtures/gmm.py               | 3 ++-
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 2 +-
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 2 +-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 072441e..f760217 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -142,7 +142,8 @@ class Normal(ExpFamily):
 
         if self.update_Lambda:
             S = vec2symmat(S/N)
-            S -= np.outer(self.mu,self.mu)
+            Fmu = np.outer(F/N, self.mu)
+            S = S - Fmu - Fmu.T + np.outer(self.mu,self.mu)
             # S = fullcov_varfloor(S, self.var_floor)
             self.Lambda = invert_pdmat(S, return_inv=True)[-1]
             self._Sigma = None
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 7575143..10b5f3d 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -119,7 +119,7 @@ class NormalDiagCov(ExpFamily):
             self.mu = F/N
 
         if self.update_Lambda:
-            S = S/N-self.mu**2
+            S = S/N-2*self.mu*F/N+self.mu**2
             S[S<self.var_floor] = self.var_floor
             self.Lambda=1/S
             self._Sigma = S
diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 8f9ecdb..1986cf2 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -179,7 +179,8 @@ class GMM(ExpFamilyMixture):
             C = np.zeros((self.num_comp, self.x_dim, self.x_dim), dtype=float_cpu())
             for k in xrange(self.num_comp):
                 C[k] = vec2symmat(S[k]/N[k])
-                C[k] -= np.outer(self.mu[k],self.mu[k])
+                Fmu = np.outer(F[k]/N[k], self.mu[k])
+                C[k] = C[k] - Fmu - Fmu.T + np.outer(self.mu[k],self.mu[k])
             Sfloor = self.var_floor*np.mean(C, axis=0)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
             self.Lambda = np.zeros_like(C)
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 28459cf..639f849 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -151,7 +151,7 @@ class GMMDiagCov(ExpFamilyMixture):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = S/N[:,None] - 2*self.mu*F/N[:,None] + self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             self.Lambda=1/S
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 4468859..98e89d8 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -83,7 +83,7 @@ class GMMTiedDiagCov(GMMDiagCov):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = S/N[:,None] - 2*self.mu*F/N[:,None] + self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             Spool = np.sum(N[:, None]*S, axis=0)/np.sum(N)
-- 
2.43.0


From 287268dc4235d4338f42853952dd5614bffc9a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 051/162] fix: compute_stats_soft keeps the responsibilities
 given

---
 hyperion/pdfs/plda/plda_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda_base.py b/hyperion/pdfs/plda/plda_base.py
index 83a6449..1550f35 100644
--- a/hyperion/pdfs/plda/plda_base.py
+++ b/hyperion/pdfs/plda/plda_base.py
@@ -224,7 +224,7 @@ class PLDABase(PDF):
         if sample_weight is not None:
             p_theta = sample_weight[:, None]*p_theta
         if scal_factor is not None:
-            p_theta *= scal_factor
+            p_theta = p_theta*scal_factor
         N = np.sum(p_theta, axis=0)
         F = np.dot(p_theta.T, x)
         wx = np.sum(p_theta, axis=1, keepdims=True)*x
-- 
2.43.0


From a6cf9a3287b0de719e60e38838d7316cc14f5540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 052/162] fix: FRPLDA within-class statistics include the
 posterior covariance

---
 hyperion/pdfs/plda/frplda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index 49aa4c7..be027c0 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -147,6 +147,7 @@ class FRPLDA(PLDABase):
                 
             if return_acc:
                 Py += M_i*iL
+                Ry += N_i*M_i*iL
 
         if not return_tuple:
             return y
-- 
2.43.0


From e9cda580fba1a237376614cf83422e33e3e74d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 053/162] fix: FRPLDA between-class covariance with fixed mean

---
 hyperion/pdfs/plda/frplda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index be027c0..97e98f2 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -222,7 +222,7 @@ class FRPLDA(PLDABase):
                 iB = Py/M - np.outer(self.mu, self.mu)
             else:
                 muybar = np.outer(self.mu, ybar)
-                iB = Py/M - muybar - muybar + np.outer(self.mu, self.mu)
+                iB = Py/M - muybar - muybar.T + np.outer(self.mu, self.mu)
             self.B = invert_pdmat(iB, return_inv=True)[-1]
         if self.update_W:
             iW = (S - Cy - Cy.T + Ry)/N
-- 
2.43.0


From fc6c9477d75a1cd5eb409f28f0464ca2fffb0c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 054/162] fix: centering of the class statistics in SPLDA and
 PLDA

---
 hyperion/pdfs/plda/plda.py  | 2 +-
 hyperion/pdfs/plda/splda.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index dbda90f..192d67c 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -118,7 +118,7 @@ class PLDA(PLDABase):
         assert self.is_init
         
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - N[:,None]*self.mu
         
         M=F.shape[0]
         y_dim = self.y_dim
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index c37f3de..d1eab2e 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -78,7 +78,7 @@ class SPLDA(PLDABase):
     def compute_py_g_x(self, D, return_cov=False, return_logpy_0=False,
                        return_acc=False):
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - N[:,None]*self.mu
         
         M = F.shape[0]
         y_dim = self.y_dim
-- 
2.43.0


From 2754761ed0a30a47f26472e090497daf43de3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 055/162] fix: SPLDA.initialize with diagonal W

---
 hyperion/pdfs/plda/splda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index d1eab2e..7209668 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -68,7 +68,7 @@ class SPLDA(PLDABase):
         if self.fullcov_W:
             W = invert_pdmat(C, return_inv=True)[-1]
         else:
-            W = 1/np.diag(C)
+            W = np.diag(1/np.diag(C))
         
         self.mu = mu
         self.V = V
-- 
2.43.0


From f879cf3ce86875c3aa7fa26b684a87a5e35ea15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 056/162] fix: llr_NvsM_book of SPLDA and PLDA

---
 hyperion/pdfs/plda/plda.py  | 13 +++++++------
 hyperion/pdfs/plda/splda.py | 11 ++++++-----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 192d67c..3d96aab 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -470,18 +470,18 @@ class PLDA(PLDABase):
         N1, F1, _ = D1
         N2, F2, _ = D2
 
-        WV = self._WV
+        WV = self._VW
         VV = self._VWV
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -519,9 +519,10 @@ class PLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
                 
 
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index 7209668..82aca73 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -328,14 +328,14 @@ class SPLDA(PLDABase):
         VV = np.dot(self.V, WV)
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -373,9 +373,10 @@ class SPLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
                 
 
-- 
2.43.0


From fbe84b3ba6a8ac78957ea4290978be82be0bfb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 057/162] fix: SPLDA.MstepMD keeps the mean given

---
 hyperion/pdfs/plda/splda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index 82aca73..4167862 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -238,7 +238,7 @@ class SPLDA(PLDABase):
         mu_y = y_acc/M
         
         if self.update_mu:
-            self.mu += np.dot(mu_y, self.V)
+            self.mu = self.mu + np.dot(mu_y, self.V)
 
         if self.update_V:
             Cov_y = Py/M - np.outer(mu_y, mu_y)
-- 
2.43.0


From 7b5d2d0dea1f5594dc67e95f413677ccda250cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 058/162] fix: PLDA channel statistics

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 3d96aab..0b7726a 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -211,7 +211,7 @@ class PLDA(PLDABase):
         Cy = np.dot(F.T, y)
         
         #Cz
-        A = np.dot(S - np.dot(F_tot.T,self.mu), self._DU.T)-np.dot(Cy, self._J)
+        A = np.dot(S - np.outer(F_tot, self.mu), self._DU.T)-np.dot(Cy, self._J)
         Cz = self._mult_iLz(A)
         
         #Ry Ry1, Py
-- 
2.43.0


From f4059000fb2a23fa71725ad131f22851fe12de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 059/162] fix: PLDA.MstepML when only some parameters are
 updated

---
 hyperion/pdfs/plda/plda.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 0b7726a..05a8b07 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -298,25 +298,25 @@ class PLDA(PLDABase):
             b = np.hstack((Rz1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
-            a = Cz.T - np.outer(Ryz, self.V)
-            b = F[:,None] - np.outer(Ry1, self.V)
+            a = Cz.T - np.dot(Ryz.T, self.V)
+            b = F - np.dot(Ry1, self.V)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.U = Vtilde[:-1]
             self.mu = Vtilde[-1]
         
 
-        if not self.update_mu and self.update_V and not self.update_U:
+        if self.update_mu and self.update_V and not self.update_U:
             a = np.hstack((Ry, Ry1[:,None]))
             b = np.hstack((Ry1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
             a = Cy.T - np.dot(Ryz, self.U)
-            b = F[:,None] - np.dot(Rz1, self.U)
+            b = F - np.dot(Rz1, self.U)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.V = Vtilde[:-1]
-            self.U = Vtilde[-1]
+            self.mu = Vtilde[-1]
 
         a = np.hstack((Ry, Ryz, Ry1[:, None]))
         b = np.hstack((Ryz.T, Rz, Rz1[:, None]))
-- 
2.43.0


From a469b30635c4c8fee0b7525f844a44325370bf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 060/162] fix: PLDA.MstepMD keeps the mean given

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 05a8b07..fa2204d 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -359,7 +359,7 @@ class PLDA(PLDABase):
         chol_Cov_z = sla.cholesky(Cov_z, lower=False, overwrite_a=True)
         
         if self.update_mu:
-            self.mu += (np.dot(mu_y, self.V + np.dot(H.T, self.U)) +
+            self.mu = self.mu + (np.dot(mu_y, self.V + np.dot(H.T, self.U)) +
                         np.dot(mu_z, self.U))
 
         if self.update_V:
-- 
2.43.0


From 855d9b2460aa260e17a117f9c083bc20eff277b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 061/162] fix: PLDA.sample uses the residual standard deviation

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index fa2204d..d3b124d 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -534,7 +534,7 @@ class PLDA(PLDABase):
         x_dim = self.mu.shape[0]
 
         z1 = rng.normal(size=(num_classes*num_samples_per_class, x_dim)).astype(dtype=float_cpu(), copy=False)
-        z1 /= self.D
+        z1 /= np.sqrt(self.D)
         
         z2 = rng.normal(size=(num_classes*num_samples_per_class, self.z_dim)).astype(dtype=float_cpu(), copy=False)
         z2 = np.dot(z2, self.U)
-- 
2.43.0


From 88e427f0909099fe7c2d01162c626552697d1d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 062/162] fix: PLDA.weighted_avg_params refreshes the derived
 matrices

---
 hyperion/pdfs/plda/plda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index d3b124d..5e96636 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -573,6 +573,8 @@ class PLDA(PLDABase):
             iD[iD<self.floor_iD] = self.floor_iD
             self.D = 1/iD
 
+        self.compute_aux()
+
         # if w_W > 0:
         #     Sw0 = np.dot(self.U.T, self.U)
         #     Sw = np.dot(U.T, U)
-- 
2.43.0


From 1da456dafc4892eab6db1ab6740f0f8e329c0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 063/162] fix: PLDA.log_probx_g_y multiplies the samples by the
 inverse on the right

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 5e96636..0ee9536 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -402,7 +402,7 @@ class PLDA(PLDABase):
     
     def log_probx_g_y(self, x, y):
         iW = np.diag(1/self.D) + np.dot(self.U.T, self.U)
-        mult_W, _, logiW = invert_pdmat(iW, return_logdet=True)
+        mult_W, _, logiW = invert_pdmat(iW, right_inv=True, return_logdet=True)
         delta = x - self.mu - np.dot(y, self.V)
         logp = - x.shape[-1]*np.log(2*np.pi) - logiW - np.sum(
             mult_W(delta)*delta, axis=-1)
-- 
2.43.0


From 4bb8cedb9ea13ce77326b216c0b383da90cf1495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 064/162] fix: PLDA training uses the sample weights

---
 hyperion/pdfs/plda/plda_base.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/hyperion/pdfs/plda/plda_base.py b/hyperion/pdfs/plda/plda_base.py
index 1550f35..891d5ee 100644
--- a/hyperion/pdfs/plda/plda_base.py
+++ b/hyperion/pdfs/plda/plda_base.py
@@ -48,17 +48,17 @@ class PLDABase(PDF):
         
         assert(not(class_ids is  None and ptheta is None))
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
             
         if x_val is not None:
             assert(not(class_ids_val is  None and ptheta_val is None))        
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(x_val, class_ids_val, sample_weight_val)
 
 
         if not self.is_init:
@@ -125,17 +125,17 @@ class PLDABase(PDF):
         
         assert  not(class_ids is  None and ptheta is None)
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
             
         if x_val is not None:
             assert not(class_ids_val is  None and ptheta_val is None)
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(x_val, class_ids_val, sample_weight_val)
 
                 
         elbo = np.zeros((epochs,), dtype=float_cpu())
@@ -174,24 +174,24 @@ class PLDABase(PDF):
         
         assert  not(class_ids is  None and ptheta is None)
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
         if x0 is not None:
             assert not(class_ids0 is  None and ptheta0 is None)
             if class_ids0 is None:
-                D0 = self.compute_stats_soft(x0, ptheta0)
+                D0 = self.compute_stats_soft(x0, ptheta0, sample_weight0)
             else:
-                D0 = self.compute_stats_hard(x0, class_ids0)
+                D0 = self.compute_stats_hard(x0, class_ids0, sample_weight0)
 
             
         if x_val is not None:
             assert not(class_ids_val is  None and ptheta_val is None)
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(x_val, class_ids_val, sample_weight_val)
 
                 
         elbo = np.zeros((epochs,), dtype=float_cpu())
-- 
2.43.0


From c85a1de702f9843c9fb1e2493f5cd4b9554cb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 065/162] fix: CentWhiten.predict with a diagonal transform

---
 hyperion/transforms/cent_whiten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 5241cb0..4959ce5 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -32,7 +32,7 @@ class CentWhiten(HypModel):
             x = x - self.mu
         if self.T is not None:
             if self.T.ndim == 1:
-                x = x*T
+                x = x*self.T
             else:
                 x = np.dot(x, self.T)
         return x
-- 
2.43.0


From bd7d0842471b5603c6e1fe2d8a0f0f461a168e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 066/162] fix: models with unset parameters can be loaded

---
 hyperion/hyp_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperion/hyp_model.py b/hyperion/hyp_model.py
index 3082a3c..0a677ee 100644
--- a/hyperion/hyp_model.py
+++ b/hyperion/hyp_model.py
@@ -124,7 +124,11 @@ class HypModel(object):
         param_dict = {}
         for k in params:
             p_name = prefix + k
-            param_dict[k] = np.asarray(f[p_name], dtype=dtypes[k])
+            if p_name in f:
+                param_dict[k] = np.asarray(f[p_name], dtype=dtypes[k])
+            else:
+                # parameters that are None are not saved
+                param_dict[k] = None
         return param_dict
 
     
-- 
2.43.0


From 4765278447a01a53c9afed335341a1d9ac064eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 067/162] fix: transforms restore their update switches

---
 hyperion/transforms/cent_whiten.py | 3 ++-
 hyperion/transforms/lda.py         | 4 +++-
 hyperion/transforms/pca.py         | 4 +++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 4959ce5..d6aba47 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -89,7 +89,8 @@ class CentWhiten(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], update_mu=config['update_mu'],
+                   update_T=config['update_t'], name=config['name'])
 
     
     
diff --git a/hyperion/transforms/lda.py b/hyperion/transforms/lda.py
index e7bb778..5a0d74c 100644
--- a/hyperion/transforms/lda.py
+++ b/hyperion/transforms/lda.py
@@ -86,7 +86,9 @@ class LDA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], lda_dim=config['lda_dim'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   name=config['name'])
 
         
     # @classmethod
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index bd93077..7968a41 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -85,7 +85,9 @@ class PCA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   name=config['name'])
     
 
     
-- 
2.43.0


From f765473cbab2dbfecd86fdbb8475f10d7658e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 068/162] fix: CentWhitenUP does not write on its input

---
 hyperion/transforms/cent_whiten_up.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/transforms/cent_whiten_up.py b/hyperion/transforms/cent_whiten_up.py
index 855385b..861d2f6 100644
--- a/hyperion/transforms/cent_whiten_up.py
+++ b/hyperion/transforms/cent_whiten_up.py
@@ -30,8 +30,11 @@ class CentWhitenUP(CentWhiten):
         m_x = x[:,:x_dim]
         s2_x = x[:,x_dim:]
         m_x = super(CentWhitenUP, self).predict(m_x)
-        for i in xrange(x.shape[0]):
-            s2_x[i] = np.diag(np.dot(self.T.T * s2_x[i], self.T))
+        if self.T is not None:
+            if self.T.ndim == 1:
+                s2_x = s2_x*self.T**2
+            else:
+                s2_x = np.dot(s2_x, self.T**2)
         return np.hstack((m_x, s2_x))
 
 
-- 
2.43.0


From 950579bb081ca256eed590490d7d16633e2c5c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 069/162] fix: NAP.fit

---
 hyperion/transforms/nap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/transforms/nap.py b/hyperion/transforms/nap.py
index bbd54bf..af8711d 100644
--- a/hyperion/transforms/nap.py
+++ b/hyperion/transforms/nap.py
@@ -28,15 +28,15 @@ class NAP(HypModel):
     
     def fit(self, x, U_dim, class_ids):
         x_hat = np.zeros_like(x)
-        u_ids = np.uniqe(class_ids)
+        u_ids = np.unique(class_ids)
         M = np.sqrt(len(u_ids))
         for i in u_ids:
-            idx = np.nonzero(i==class_ids)
+            idx = np.nonzero(i==class_ids)[0]
             N = np.sqrt(len(idx))
             mu_i = np.mean(x[idx,:], axis=0)
-            xx[idx, :] = (x[idx, :] - mu_i)/N
-        xx /= M
-        _, s, Vt = np.svd(xx, full_matrices=False, overwrite_a=True)
+            x_hat[idx, :] = (x[idx, :] - mu_i)/N
+        x_hat /= M
+        _, s, Vt = la.svd(x_hat, full_matrices=False, overwrite_a=True)
         idx = (np.argsort(s)[::-1])[:U_dim]
         self.U = Vt[idx, :]
 
-- 
2.43.0


From aff7d7b7126bc0dc7fa885d820051b4255bcb2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 070/162] fix: SbSw keeps the matrices given and can be loaded

---
 hyperion/transforms/sb_sw.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/hyperion/transforms/sb_sw.py b/hyperion/transforms/sb_sw.py
index 7507fcd..efd90a8 100644
--- a/hyperion/transforms/sb_sw.py
+++ b/hyperion/transforms/sb_sw.py
@@ -21,9 +21,9 @@ class SbSw(HypModel):
     """
     def __init__(self, Sb=None, Sw=None, mu=None, num_classes=0, **kwargs):
         super(SbSw, self).__init__(**kwargs)
-        self.Sb = None
-        self.Sw = None
-        self.mu = None
+        self.Sb = Sb
+        self.Sw = Sw
+        self.mu = mu
         self.num_classes = num_classes
 
         
@@ -82,13 +82,12 @@ class SbSw(HypModel):
 
         
     @classmethod
-    def load(cls, file_path):
-        with h5py.File(file_path,'r') as f:
-            config = self.load_config_from_json(f['config'])
-            param_list = ['mu', 'Sb', 'Sw', 'num_classes']
-            params = cls._load_params_to_dict(f, config['name'], param_list)
-            kwargs = dict(list(config.items()) + list(params.items()))
-            return cls(**kwargs)
+    def load_params(cls, f, config):
+        param_list = ['mu', 'Sb', 'Sw', 'num_classes']
+        params = cls._load_params_to_dict(f, config['name'], param_list)
+        params['num_classes'] = int(params['num_classes'])
+        kwargs = dict(list(config.items()) + list(params.items()))
+        return cls(**kwargs)
         
         
 
-- 
2.43.0


From de4ed9514db00b198e6b787a43a5872d86d1c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 071/162] fix: Gaussianizer.fit without limit of vectors

---
 hyperion/transforms/gaussianizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/gaussianizer.py b/hyperion/transforms/gaussianizer.py
index 3850d86..58ed0c3 100644
--- a/hyperion/transforms/gaussianizer.py
+++ b/hyperion/transforms/gaussianizer.py
@@ -50,7 +50,7 @@ class Gaussianizer(HypModel):
 
         x = np.zeros((1, x.shape[-1]), dtype=float_cpu())
 
-        if r.shape[0] > self.max_vectors:
+        if self.max_vectors is not None and r.shape[0] > self.max_vectors:
             index = np.round(np.linspace(0, r.shape[0]-1, self.max_vectors, dtype=float)).astype(int)
             r = r[index, :]
 
-- 
2.43.0


From 6929135c444f564475b02e5f6f6d433bab474c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 072/162] fix: TransformList keeps the names of its transforms
 when loaded

---
 hyperion/transforms/transform_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/transforms/transform_list.py b/hyperion/transforms/transform_list.py
index 8d4c0b0..3e8b4b1 100644
--- a/hyperion/transforms/transform_list.py
+++ b/hyperion/transforms/transform_list.py
@@ -82,5 +82,8 @@ class TransformList(HypModel):
             class_t = globals()[config_t['class_name']]
             t = class_t.load_params(f, config_t)
             transforms.append(t)
-        return cls(transforms, name=config['name'])
+        # the saved names include the name of the list already
+        tlist = cls(transforms)
+        tlist.name = config['name']
+        return tlist
             
-- 
2.43.0


From 8891bfb983df5ceffe91d82e294f273bd404d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:56 +0000
Subject: [PATCH 073/162] fix: score normalization constructors

---
 hyperion/score_norm/adapt_s_norm.py | 2 +-
 hyperion/score_norm/s_norm.py       | 2 +-
 hyperion/score_norm/score_norm.py   | 2 +-
 hyperion/score_norm/tz_norm.py      | 2 +-
 hyperion/score_norm/zt_norm.py      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index abf7351..0448449 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -18,7 +18,7 @@ class AdaptSNorm(ScoreNorm):
     """Class for adaptive S-Norm
     """
     def __init__(self, nbest=100, nbest_discard=0, **kwargs):
-        super(AdaptSNorm, self).__init__(*kwargs)
+        super(AdaptSNorm, self).__init__(**kwargs)
         self.nbest = nbest
         self.nbest_discard = nbest_discard
 
diff --git a/hyperion/score_norm/s_norm.py b/hyperion/score_norm/s_norm.py
index deae2a8..f93a320 100644
--- a/hyperion/score_norm/s_norm.py
+++ b/hyperion/score_norm/s_norm.py
@@ -18,7 +18,7 @@ class SNorm(ScoreNorm):
     """ Class for S-Norm, symmetric score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(SNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/score_norm.py b/hyperion/score_norm/score_norm.py
index f81d99a..19e573d 100644
--- a/hyperion/score_norm/score_norm.py
+++ b/hyperion/score_norm/score_norm.py
@@ -16,7 +16,7 @@ class ScoreNorm(HypModel):
     Base class for score normalization
     """
     def __init__(self, std_floor=1e-5, **kwargs):
-        super(ScoreNorm, self).__init__(*kwargs)
+        super(ScoreNorm, self).__init__(**kwargs)
         self.std_floor = std_floor
 
     
diff --git a/hyperion/score_norm/tz_norm.py b/hyperion/score_norm/tz_norm.py
index 89bca45..164f5c8 100644
--- a/hyperion/score_norm/tz_norm.py
+++ b/hyperion/score_norm/tz_norm.py
@@ -17,7 +17,7 @@ class TZNorm(ScoreNorm):
     """Class for TZ-Norm score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(TZNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index b0f9f9b..e3f7b05 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -18,7 +18,7 @@ class ZTNorm(ScoreNorm):
     """Class ZT-Norm score-normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(ZTNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
-- 
2.43.0


From 2bb59dcf9f4ebc15031a9f422d334c505143a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:56 +0000
Subject: [PATCH 074/162] fix: ZTNorm applies the cohort-cohort mask

---
 hyperion/score_norm/zt_norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index e3f7b05..9906b47 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -30,7 +30,7 @@ class ZTNorm(ScoreNorm):
         scores_z_norm = self.z_norm.predict(
             scores, scores_enr_coh, mask_enr_coh)
         scores_coh_test_z_norm = self.z_norm.predict(
-            scores_coh_test, scores_coh_coh, mask_enr_coh)
+            scores_coh_test, scores_coh_coh, mask_coh_coh)
         scores_zt_norm = self.t_norm.predict(
             scores_z_norm, scores_coh_test_z_norm, mask_coh_test)
         
-- 
2.43.0


From dac5eb1ac5094d9c80dbb6fad65c0a3e2249eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:56 +0000
Subject: [PATCH 075/162] fix: score normalization does not write on the cohort
 scores

---
 hyperion/score_norm/adapt_s_norm.py | 2 ++
 hyperion/score_norm/t_norm.py       | 1 +
 hyperion/score_norm/z_norm.py       | 1 +
 3 files changed, 4 insertions(+)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 0448449..f7470c7 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -34,8 +34,10 @@ class AdaptSNorm(ScoreNorm):
             nbest = self.nbest
 
         if mask_coh_test is not None:
+            scores_coh_test = scores_coh_test.copy()
             scores_coh_test[mask_coh_test == False] = 0
         if mask_enr_coh is not None:
+            scores_enr_coh = scores_enr_coh.copy()
             scores_enr_coh[mask_enr_coh == False] = 0
             
         best_idx = np.flipud(np.argsort(scores_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 11999e9..6c28743 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -21,6 +21,7 @@ class TNorm(ScoreNorm):
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)
             s_t = np.std(scores_coh_test, axis=0, keepdims=True)
         else:
+            scores_coh_test = scores_coh_test.copy()
             scores_coh_test[mask==False] = 0
             n_t = np.mean(mask, axis=0, keepdims=True)
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index b758268..f3c67d7 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -22,6 +22,7 @@ class ZNorm(ScoreNorm):
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)
             s_z = np.std(scores_enr_coh, axis=1, keepdims=True)
         else:
+            scores_enr_coh = scores_enr_coh.copy()
             scores_enr_coh[mask==False] = 0
             n_z = np.mean(mask, axis=1, keepdims=True)
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
-- 
2.43.0


From 2ba6597300de0e376e370314cbc3e5e48b3beafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:56 +0000
Subject: [PATCH 076/162] fix: AdaptSNorm floors the standard deviations

---
 hyperion/score_norm/adapt_s_norm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index f7470c7..194de63 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -58,6 +58,7 @@ class AdaptSNorm(ScoreNorm):
                 s_z = np.sqrt(np.mean(scores_enr_coh[:, best_idx_i]**2,
                                       axis=1, keepdims=True)/norm - mu_z**2)
 
+            s_z[s_z<self.std_floor] = self.std_floor
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
 
@@ -79,6 +80,7 @@ class AdaptSNorm(ScoreNorm):
                 s_z = np.sqrt(np.mean(scores_coh_test[best_idx_i,:]**2,
                                       axis=0, keepdims=True)/norm - mu_z**2)
 
+            s_z[s_z<self.std_floor] = self.std_floor
             scores_t_norm[i,:] = (scores[i,:] - mu_z)/s_z
 
         
-- 
2.43.0


From 687ea604c4db994917c66611492e6f44ad839fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 077/162] fix: GaussCalibration can be loaded

---
 hyperion/calibration/gauss_calibration.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hyperion/calibration/gauss_calibration.py b/hyperion/calibration/gauss_calibration.py
index f1d613f..ff8da42 100644
--- a/hyperion/calibration/gauss_calibration.py
+++ b/hyperion/calibration/gauss_calibration.py
@@ -63,6 +63,12 @@ class GaussCalibration(HypModel):
         return self.a*x+self.b
 
 
+    def get_config(self):
+        config = {'prior': float(self.prior)}
+        base_config = super(GaussCalibration, self).get_config()
+        return dict(list(base_config.items()) + list(config.items()))
+
+
     def save_params(self, f):
         params = {'mu1': self.mu1,
                   'mu2': self.mu2,
@@ -75,6 +81,7 @@ class GaussCalibration(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu1', 'mu2', 'sigma2']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=config['sigma2'], name=config['name'])
+        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=params['sigma2'],
+                   prior=config['prior'], name=config['name'])
 
     
-- 
2.43.0


From 722549a4db170914b7cbedc59b677ce6aeefa241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 078/162] fix: UnsupGaussCalibration uses the tied covariance
 GMM that exists

---
 hyperion/calibration/unsup_gauss_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/calibration/unsup_gauss_calibration.py b/hyperion/calibration/unsup_gauss_calibration.py
index 1c8ccac..2398248 100644
--- a/hyperion/calibration/unsup_gauss_calibration.py
+++ b/hyperion/calibration/unsup_gauss_calibration.py
@@ -9,7 +9,7 @@ from six.moves import xrange
 import sys
 import numpy as np
 
-from ..pdfs.mixtures.diag_gmm_tiedcovs import DiagGMMTiedCovs as GMM
+from ..pdfs.mixtures import GMMTiedDiagCov as GMM
 from .gauss_calibration import GaussCalibration
 
 class UnsupGaussCalibration(GaussCalibration):
@@ -34,7 +34,7 @@ class UnsupGaussCalibration(GaussCalibration):
         else:
             mu1 = np.max(x, axis=0, keepdims=True)
             mu2 = np.mean(x, axis=0, keepdims=True)
-            sigma2 = np.std(x, axis=0, keepdims=True)**2
+            sigma2 = np.std(x, axis=0)**2
             pi = np.array([self.init_prior, 1-self.init_prior])
 
         mu = np.vstack((mu1, mu2))
-- 
2.43.0


From 4230877a62bde13b0851764e5e02747c715bedac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 079/162] fix: AHC.compute_flat_clusters computes the clusters
 of each level

---
 hyperion/clustering/ahc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index e0fe037..5d7a165 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -87,7 +87,7 @@ class AHC(HypModel):
 
     
 
-    def compute_flat_clusters():
+    def compute_flat_clusters(self):
         N = self.Z.shape[0]+1
         flat_clusters = np.zeros((N,N), dtype=int)
         flat_clusters[0] = np.arange(N, dtype=int)
@@ -98,7 +98,7 @@ class AHC(HypModel):
             flat_clusters[i+1][segm_idx] = N + i
 
         for i in xrange(1,N):
-            _, flat_clusters[i] = np.unique(flat_clusters, return_inverse=True)
+            _, flat_clusters[i] = np.unique(flat_clusters[i], return_inverse=True)
         self.flat_clusters = flat_clusters
 
 
-- 
2.43.0


From e4f1f01f3dedef97ec53cea4def05833330627d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 080/162] fix: AHC.fit forgets the flat clusters of the
 previous fit

---
 hyperion/clustering/ahc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index 5d7a165..fb5e77f 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -48,6 +48,8 @@ class AHC(HypModel):
             self.Z[:, 2] = 1 - self.Z[:, 2]
         else:
             self.Z = linkage(scores, method=self.method, metric=self.metric)
+
+        self.flat_clusters = None
         
 
 
-- 
2.43.0


From 4d1e81084ea816f0e315b1b06ab8d39c062db9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 081/162] fix: KaldiMatrix reads empty text matrices

---
 hyperion/utils/kaldi_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/kaldi_matrix.py b/hyperion/utils/kaldi_matrix.py
index 04f20b9..b8ab752 100644
--- a/hyperion/utils/kaldi_matrix.py
+++ b/hyperion/utils/kaldi_matrix.py
@@ -131,8 +131,8 @@ class KaldiMatrix(object):
 
                 arr = line.strip().split()
                 if first_line:
-                    if arr == '[]':
-                        return np.array([], dtype='float32')
+                    if arr == ['[]']:
+                        return cls(np.array([], dtype='float32'))
                     if arr[0] != '[':
                         raise ValueError('Wrong matrix format %s ' % line)
                     first_line = False
-- 
2.43.0


From b8de29599daf713b8658e4fc415be0174e321738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 082/162] fix: KaldiCompressedMatrix.read_shape of uncompressed
 matrices

---
 hyperion/utils/kaldi_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/kaldi_matrix.py b/hyperion/utils/kaldi_matrix.py
index b8ab752..1532948 100644
--- a/hyperion/utils/kaldi_matrix.py
+++ b/hyperion/utils/kaldi_matrix.py
@@ -804,7 +804,7 @@ class KaldiCompressedMatrix(object):
 
                 return (num_rows, num_cols)
             else:
-                matrix = KaldiMatrix.read(f, binary, row_offset, num_rows)
+                matrix = KaldiMatrix.read(f, binary)
                 return matrix.data.shape
 
         matrix = KaldiMatrix.read(f, binary)
-- 
2.43.0


From d4bd342c773a48a09a6180597d8cd9c2e2f9c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:16 +0000
Subject: [PATCH 083/162] fix: SequentialArkFileDataReader.read with lists of
 rows

---
 hyperion/io/ark_data_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index 3385d20..f91087b 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -234,8 +234,8 @@ class SequentialArkFileDataReader(SequentialArkDataReader):
                 self._eof = True
                 break
             
-            row_offset_i = row_offset[i] if row_offset_is_list else row_offset
-            num_rows_i = num_rows[i] if num_rows_is_list else num_rows
+            row_offset_i = row_offset[count] if row_offset_is_list else row_offset
+            num_rows_i = num_rows[count] if num_rows_is_list else num_rows
             
             binary = init_kaldi_input_stream(self.f)
             data_i = KaldiMatrix.read(
-- 
2.43.0


From 4ac29491d7e04a7e84d531a886ed22b6169f091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:33 +0000
Subject: [PATCH 084/162] fix: read_shapes at the end of the script

---
 hyperion/io/ark_data_reader.py | 2 +-
 hyperion/io/h5_data_reader.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index f91087b..4b46109 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -347,7 +347,7 @@ class SequentialArkScriptDataReader(SequentialArkDataReader):
             shapes.append(shape_i)
             self.cur_item += 1
 
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=int)
             assert np.all(dims == dims[0])
             
diff --git a/hyperion/io/h5_data_reader.py b/hyperion/io/h5_data_reader.py
index 33f4936..82d15b0 100644
--- a/hyperion/io/h5_data_reader.py
+++ b/hyperion/io/h5_data_reader.py
@@ -356,7 +356,7 @@ class SequentialH5ScriptDataReader(SequentialH5DataReader):
             shapes.append(shape_i)
             self.cur_item += 1
             
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=np.int32)
             assert np.all(dims == dims[0])
             
-- 
2.43.0


From 85342dbc07835e516cafa7827a336287a66c2a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:33 +0000
Subject: [PATCH 085/162] fix: row_offset and num_rows count inside of the
 range of the script

---
 hyperion/io/data_reader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index dbe384c..76403bc 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -124,13 +124,12 @@ class DataReader(object):
         if read_range is None:
             return row_offset, num_rows
 
+        if read_range[1] > 0:
+            if num_rows == 0:
+                num_rows = read_range[1] - row_offset
+            assert num_rows > 0 and row_offset + num_rows <= read_range[1]
+
         row_offset = row_offset + read_range[0]
-            
-        if num_rows == 0:
-            num_rows = read_range[1]
-        else:
-            if read_range[1] > 0:
-                assert read_range[1] >= num_rows
 
         return row_offset, num_rows
 
-- 
2.43.0


From a46ee74ffdefe3043b8170539aa6a2e7eaae633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:33 +0000
Subject: [PATCH 086/162] fix: permissive squeeze when the first matrix is
 missing

---
 hyperion/io/data_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index 76403bc..b702fb0 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -81,8 +81,9 @@ class DataReader(object):
           2D or 3D numpy array.
         """
 
-        ndim = data[0].ndim
-        shape = data[0].shape
+        ref = next((d for d in data if len(d) > 0), data[0])
+        ndim = ref.ndim
+        shape = ref.shape
         for i in xrange(len(data)):
             if len(data[i]) == 0:
                 if permissive:
-- 
2.43.0


From 51fe894b5dc8af40ea8fba58c9cd9cee788c41a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:33 +0000
Subject: [PATCH 087/162] fix: ark scripts without offsets

---
 hyperion/io/ark_data_reader.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index 4b46109..2dd0e0b 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -73,8 +73,7 @@ class SequentialArkDataReader(SequentialDataReader):
             self.cur_file = file_path
             self.f = open(file_path, 'rb')
 
-        if offset > 0:
-            self._seek(offset)
+        self._seek(0 if offset is None else offset)
         
 
             
@@ -480,7 +479,7 @@ class RandomAccessArkDataReader(RandomAccessDataReader):
             self.f[archive_idx] = open(self.archives[archive_idx], 'rb')
 
         f = self.f[archive_idx]
-        f.seek(offset, 0)
+        f.seek(0 if offset is None else offset, 0)
         return f
 
 
-- 
2.43.0


From d4ccd43948b04b0a84b96f86073e249c1312237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 088/162] fix: reader factories use scp_sep to look into the
 script

---
 hyperion/io/data_rw_factory.py | 4 ++--
 hyperion/io/rw_specifiers.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/io/data_rw_factory.py b/hyperion/io/data_rw_factory.py
index 0357249..20b143c 100644
--- a/hyperion/io/data_rw_factory.py
+++ b/hyperion/io/data_rw_factory.py
@@ -93,7 +93,7 @@ class SequentialDataReaderFactory(object):
     def create(rspecifier, path_prefix=None, scp_sep=' ', **kwargs):
         
         if isinstance(rspecifier, string_types):
-            rspecifier = RSpecifier.create(rspecifier)
+            rspecifier = RSpecifier.create(rspecifier, scp_sep)
             
         if rspecifier.spec_type ==  RSpecType.ARCHIVE:
             if rspecifier.archive_type == ArchiveType.H5:
@@ -148,7 +148,7 @@ class RandomAccessDataReaderFactory(object):
     @staticmethod
     def create(rspecifier, path_prefix=None, transform=None, scp_sep=' '):
         if isinstance(rspecifier, string_types):
-            rspecifier = RSpecifier.create(rspecifier)
+            rspecifier = RSpecifier.create(rspecifier, scp_sep)
         logging.debug(rspecifier.__dict__)
         if rspecifier.spec_type ==  RSpecType.ARCHIVE:
             if rspecifier.archive_type == ArchiveType.H5:
diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index 814cae5..1d4662a 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -294,7 +294,7 @@ class RSpecifier(object):
 
     
     @classmethod
-    def create(cls, rspecifier):
+    def create(cls, rspecifier, scp_sep=' '):
         fields = rspecifier.strip().split(':')
         if len(fields) == 1:
             assert len(fields[0]) > 0
@@ -338,7 +338,7 @@ class RSpecifier(object):
             
             if spec_type == RSpecType.SCRIPT:
                 with open(archive, 'r') as f:
-                    scp = f.readline().strip().split(' ')[1].split('[')[0].split(':')
+                    scp = f.readline().strip().split(scp_sep)[1].split('[')[0].split(':')
                     if len(scp) == 1:
                         archive_type = ArchiveType.H5
                     else:
-- 
2.43.0


From 25f600250cf1006e96368bc920e904085ee9269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 089/162] fix: RSpecifier accepts the options that its
 documentation ignores

---
 hyperion/io/rw_specifiers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index 1d4662a..106b10b 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -327,7 +327,8 @@ class RSpecifier(object):
                     spec_type = RSpecType.SCRIPT
                 elif option == 'p':
                     permissive = True
-                elif option in ['o', 's', 'cs', 'bg']:
+                elif option in ['o', 's', 'cs', 'bg', 'b', 't',
+                                'no', 'ns', 'ncs', 'np', 'nbg']:
                     pass
                 else:
                     raise ValueError('Wrong wspecifier options %s'
-- 
2.43.0


From 205d9cbdccc204c6011189cc296060535d36312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 090/162] fix: DataWriterFactory options with prefix

---
 hyperion/io/data_rw_factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/data_rw_factory.py b/hyperion/io/data_rw_factory.py
index 20b143c..fe1850c 100644
--- a/hyperion/io/data_rw_factory.py
+++ b/hyperion/io/data_rw_factory.py
@@ -80,8 +80,8 @@ class DataWriterFactory(object):
             
         parser.add_argument(p1+'scp-sep', dest=(p2+'scp_sep'), default=' ',
                             help=('scp file field separator'))
-        parser.add_argument('--compress', dest='compress', default=False, action='store_true')
-        parser.add_argument('--compression-method', dest='compression_method', default='auto',
+        parser.add_argument(p1+'compress', dest=(p2+'compress'), default=False, action='store_true')
+        parser.add_argument(p1+'compression-method', dest=(p2+'compression_method'), default='auto',
                             choices=compression_methods)
 
 
-- 
2.43.0


From 6f91127f265b371aa86197cdd1b1c355ef70ef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 091/162] fix: LinearGBE predictive density uses the log
 determinant of its precision

---
 hyperion/classifiers/linear_gbe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe.py b/hyperion/classifiers/linear_gbe.py
index cfd642a..8ef2652 100644
--- a/hyperion/classifiers/linear_gbe.py
+++ b/hyperion/classifiers/linear_gbe.py
@@ -115,7 +115,7 @@ class LinearGBE(HypModel):
 
         # 0.5*log|L| = 0.5*log|K| + 0.5*d*log(c r) 
         logK = logdet_pdmat(K)
-        logL_div_2 = 0.5*logK + 0.5*self.x_dim*r 
+        logL_div_2 = 0.5*logK + 0.5*self.x_dim*np.log(c*r)
         
         # delta2_0 = (x-mu)^T W (x-mu)
         delta2_0 = np.sum(np.dot(x, self.W)*x, axis=1, keepdims=True) - 2*(
-- 
2.43.0


From f7e82acce73bda93e9f6cad263b2e373a4dc440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 092/162] fix: LinearGBEUP splits means and variances with
 integer indices

---
 hyperion/classifiers/linear_gbe_up.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index 5b5d005..1e23d7d 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -42,8 +42,8 @@ class LinearGBEUP(LinearGBE):
     
 
     def eval_linear(self, x):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         try:
             S = invert_pdmat(self.W, return_inv=True)[-1]
         except:
@@ -103,8 +103,8 @@ class LinearGBEUP(LinearGBE):
 
     
     def fit(self, x, class_ids=None, p_theta=None, sample_weight=None):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         x = x_m
         assert class_ids is not None or p_theta is not None
 
-- 
2.43.0


From aa6269c2f4a7be94f3fe371086ac5e7072cb6093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 093/162] fix: QScoringHomoGBE rescales the precision of the
 prior

---
 hyperion/classifiers/q_scoring_homo_gbe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/q_scoring_homo_gbe.py b/hyperion/classifiers/q_scoring_homo_gbe.py
index 304127f..dea7e77 100644
--- a/hyperion/classifiers/q_scoring_homo_gbe.py
+++ b/hyperion/classifiers/q_scoring_homo_gbe.py
@@ -64,7 +64,7 @@ class QScoringHomoGBE(HypModel):
             self.prior = QScoringHomoGBE.load(self.prior)
         num_classes = self.prior.mu.shape[0]
         if self.prior_N is not None:
-            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.W-1)
+            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.prior.W-1)
             self.prior.N = self.prior_N*np.ones((num_classes,), dtype=float_cpu())
 
 
-- 
2.43.0


From 9db9a79418588ba7a3b342b287a8e38708c90a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 094/162] fix: the bias of scikit-learn is already scaled

---
 hyperion/classifiers/linear_svmc.py         | 2 +-
 hyperion/classifiers/logistic_regression.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 06de3d4..ac67bf9 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -60,7 +60,7 @@ class LinearSVMC(HypModel):
 
     @property
     def b(self):
-        return self.svm.intercept_*self.bias_scaling
+        return self.svm.intercept_
 
 
     def get_config(self):
diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 3283492..8e89e64 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -99,7 +99,7 @@ class LogisticRegression(HypModel):
             self.lr.coef_ = A.T
 
         if b is not None:
-            self.lr.intercept_ = b/self.bias_scaling
+            self.lr.intercept_ = b
 
 
     @property
@@ -108,7 +108,7 @@ class LogisticRegression(HypModel):
 
     @property
     def b(self):
-        return self.lr.intercept_*self.bias_scaling
+        return self.lr.intercept_
 
 
     def get_config(self):
@@ -159,10 +159,10 @@ class LogisticRegression(HypModel):
             #adjust bias to produce log-llk ratios
             if len(self.lr.intercept_) == 1:
                 priors = self.priors[1]
-            self.lr.intercept_ -= np.log(priors/(1-priors))/self.bias_scaling
+            self.lr.intercept_ -= np.log(priors/(1-priors))
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(self.priors)/self.bias_scaling
+            self.lr.intercept_ -= np.log(self.priors)
 
 
             
-- 
2.43.0


From d93150ad298647d1051cac4c2c4bd07d070848a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 095/162] fix: LogisticRegression.fit does not modify the
 sample weights

---
 hyperion/classifiers/logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 8e89e64..ea41e97 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -151,7 +151,7 @@ class LogisticRegression(HypModel):
         if sample_weight is None:
             sample_weight = class_weights[class_ids]
         else:
-            sample_weight *= class_weights[class_ids]
+            sample_weight = sample_weight*class_weights[class_ids]
             
         self.lr.fit(x, class_ids, sample_weight=sample_weight)
 
-- 
2.43.0


From 4e3d28721da573a0b78acd90b31eab9a13ab084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:19 +0000
Subject: [PATCH 096/162] fix: LogisticRegression without priors or with a
 dictionary of them

---
 hyperion/classifiers/logistic_regression.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index ea41e97..ce324da 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -120,6 +120,13 @@ class LogisticRegression(HypModel):
 
 
     
+    def _get_priors(self, num_classes):
+        if self.priors is None:
+            return 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
+        return np.array([self.priors[i] for i in xrange(num_classes)])
+
+
+
     def predict(self, x, eval_type='logit'):
         if x.ndim == 1:
             x = x[:, None]
@@ -127,9 +134,9 @@ class LogisticRegression(HypModel):
         y = np.dot(x, self.A) + self.b
 
         if eval_type == 'log-post':
-            y = np.log(softmax(y + np.log(self.priors), axis=1)+1e-10)
+            y = np.log(softmax(y + np.log(self._get_priors(y.shape[1])), axis=1)+1e-10)
         if eval_type == 'post':
-            y = softmax(y + np.log(self.priors))
+            y = softmax(y + np.log(self._get_priors(y.shape[1])))
         
         return y
         
@@ -142,10 +149,7 @@ class LogisticRegression(HypModel):
         counts = np.bincount(class_ids)
         assert num_classes == len(counts)
         
-        if self.priors is None:
-            priors = 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
-        else:
-            priors = [self.priors[i] for i in xrange(num_classes)]
+        priors = self._get_priors(num_classes)
         class_weights = priors/counts
         
         if sample_weight is None:
@@ -158,11 +162,11 @@ class LogisticRegression(HypModel):
         if self.multi_class == 'ovr':
             #adjust bias to produce log-llk ratios
             if len(self.lr.intercept_) == 1:
-                priors = self.priors[1]
+                priors = priors[1]
             self.lr.intercept_ -= np.log(priors/(1-priors))
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(self.priors)
+            self.lr.intercept_ -= np.log(priors)
 
 
             
-- 
2.43.0


From 6f73587cca3de71069b3bc88ea0999acdb5aaa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:19 +0000
Subject: [PATCH 097/162] fix: LogisticRegression saves its priors

---
 hyperion/classifiers/logistic_regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index ce324da..c9dfa53 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -114,7 +114,8 @@ class LogisticRegression(HypModel):
     def get_config(self):
         config = { 'use_bias': self.use_bias,
                    'bias_scaling': self.bias_scaling,
-                   'priors': self.priors }
+                   'priors': None if self.priors is None else [
+                       float(self.priors[i]) for i in xrange(len(self.priors))] }
         base_config = super(LogisticRegression, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
-- 
2.43.0


From 6eabf97c02f025c617b08fc064d9bb42acf70401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:19 +0000
Subject: [PATCH 098/162] fix: BinaryLogisticRegression passes its
 regularization

---
 hyperion/classifiers/binary_logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/binary_logistic_regression.py b/hyperion/classifiers/binary_logistic_regression.py
index 2eb6045..7d7d61d 100644
--- a/hyperion/classifiers/binary_logistic_regression.py
+++ b/hyperion/classifiers/binary_logistic_regression.py
@@ -21,7 +21,7 @@ class BinaryLogisticRegression(LogisticRegression):
         
         priors = {0:1-prior, 1:prior}
         super(BinaryLogisticRegression, self).__init__(
-            A=A, b=b, penalty=penalty, labmda_reg=lambda_reg,
+            A=A, b=b, penalty=penalty, lambda_reg=lambda_reg,
             use_bias=use_bias, bias_scaling=bias_scaling, priors=priors,
             random_state=random_state, solver=solver, max_iter=max_iter,
             dual=dual, tol=tol, verbose=verbose, warm_start=warm_start,
-- 
2.43.0


From 25f633162105992fc12466d542f31ea1018527a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:19 +0000
Subject: [PATCH 099/162] fix: sign of the log posterior of LinearSVMC

---
 hyperion/classifiers/linear_svmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index ac67bf9..5f65d05 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -77,7 +77,7 @@ class LinearSVMC(HypModel):
         s = np.dot(x, self.A) + self.b
         
         if eval_type == 'bin-logpost':
-            return np.log(1+np.exp(-s))
+            return -np.log(1+np.exp(-s))
         if eval_type == 'bin-post':
             return 1/(1+np.exp(-s))
         if eval_type == 'cat-post':
-- 
2.43.0


From e7b1478a754654973297f87aa43ee69b1f208b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:18 +0000
Subject: [PATCH 100/162] fix: BinaryLogisticRegression passes its seed

---
 hyperion/classifiers/binary_logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/binary_logistic_regression.py b/hyperion/classifiers/binary_logistic_regression.py
index 7d7d61d..b3735f7 100644
--- a/hyperion/classifiers/binary_logistic_regression.py
+++ b/hyperion/classifiers/binary_logistic_regression.py
@@ -25,7 +25,7 @@ class BinaryLogisticRegression(LogisticRegression):
             use_bias=use_bias, bias_scaling=bias_scaling, priors=priors,
             random_state=random_state, solver=solver, max_iter=max_iter,
             dual=dual, tol=tol, verbose=verbose, warm_start=warm_start,
-            multi_class='ovr', lr_seed=1024, **kwargs)
+            multi_class='ovr', lr_seed=lr_seed, **kwargs)
 
 
 
-- 
2.43.0


From 7ef6e95602dfe4951f6d4d2422b38d74e7f9f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:26 +0000
Subject: [PATCH 101/162] fix: LinearGBEUP floors the covariance with a
 Cholesky decomposition

---
 hyperion/classifiers/linear_gbe_up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index 1e23d7d..380dd66 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -173,7 +173,7 @@ class LinearGBEUP(LinearGBE):
                 S /= (nu0+np.sum(N))
 
             x_s_mean=np.diag(np.mean(x_s, axis=0))
-            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1)
+            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1, F_is_chol=True)
             S -= x_s_mean
             
             self.W = invert_pdmat(S, return_inv=True)[-1]
-- 
2.43.0


From 0d08259b922e45056793b4f82b151098d629b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 102/162] fix: VectorReader accepts its list separator

---
 hyperion/helpers/vector_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_reader.py b/hyperion/helpers/vector_reader.py
index e19b913..7f9985a 100644
--- a/hyperion/helpers/vector_reader.py
+++ b/hyperion/helpers/vector_reader.py
@@ -45,7 +45,7 @@ class VectorReader(object):
         else:
             p = prefix + '_'
             
-        valid_args = ('vlist_sep')
+        valid_args = ('vlist_sep',)
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From e830c38abcbb680060996324ac81b2d3179dad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 103/162] fix: VectorClassReader makes room for all the
 subclasses

---
 hyperion/helpers/vector_class_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 4c29374..42a782f 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -159,7 +159,8 @@ class VectorClassReader(object):
         num_classes = np.max(class_ids)+1
 
         shift = max_spc-overlap
-        new_indx = np.zeros(max_spc*int(np.max(num_spc)*num_classes/shift+1), dtype=int)
+        num_subclasses = np.maximum(np.ceil((num_spc - max_spc)/shift + 1), 1)
+        new_indx = np.zeros(max_spc*int(np.sum(num_subclasses)), dtype=int)
         new_class_ids = np.zeros_like(new_indx)
         
         j = 0
-- 
2.43.0


From 577bb82bd09aba1e24072077d12090ae5e8a7fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 104/162] fix: VectorClassReader accepts the splitting mode
 random_1subclass of its arguments

---
 hyperion/helpers/vector_class_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 42a782f..f92168c 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -149,7 +149,7 @@ class VectorClassReader(object):
     def _split_classes(u2c, min_spc, max_spc, mode='sequential', overlap=0, rng=None):
         if max_spc is None:
             return u2c
-        if mode == 'random_1part':
+        if mode in ('random_1part', 'random_1subclass'):
             return VectorClassReader._filter_by_spc(u2c, min_spc, max_spc, 'random', rng)
 
         _, class_ids, num_spc = np.unique(u2c.info, return_inverse=True, return_counts=True)
-- 
2.43.0


From b2f591a356bb3ca509870e0baa7c8db2fde6fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 105/162] fix: types of class splitting arguments of
 VectorClassReader

---
 hyperion/helpers/vector_class_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index f92168c..0c099ed 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -244,7 +244,7 @@ class VectorClassReader(object):
                             choices=['random', 'first', 'last'],
                             help=('vector pruning method when spc > max-spc'))
         parser.add_argument(p1+'csplit-min-spc', dest=(p2+'csplit_min_spc'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum samples per class when doing class spliting'))
         parser.add_argument(p1+'csplit-max-spc', dest=(p2+'csplit_max_spc'), type=int,
                             default=None,
@@ -255,7 +255,7 @@ class VectorClassReader(object):
                             default='random', type=str.lower,
                             choices = ['sequential', 'random', 'random_1subclass'],
                             help=('class splitting mode'))
-        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=float,
+        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=int,
                             default=0, help=('overlap between subclasses'))
         parser.add_argument(p1+'no-csplit-once', dest=(p2+'csplit_once'), 
                             default=True, action='store_false',
-- 
2.43.0


From 798bb349e987473436bab30355478263cedb4fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 106/162] fix: TrialNdx.parse_eval_set takes the test segments
 from the key of the list

---
 hyperion/utils/trial_ndx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index bf96196..9deacb8 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -227,12 +227,12 @@ class TrialNdx(object):
         if eval_set == 'enroll-test':
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'enroll-coh':
-            ndx = TrialNdx(ndx.model_set, test.file_path)
+            ndx = TrialNdx(ndx.model_set, test.key)
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'coh-test':
             ndx = TrialNdx(enroll.key, ndx.seg_set)
         if eval_set == 'coh-coh':
-            ndx = TrialNdx(enroll.key, test.file_path)
+            ndx = TrialNdx(enroll.key, test.key)
         return ndx, enroll
 
     
-- 
2.43.0


From 8b2cac91b12f074ff84198b0eb98dbdc4550a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 107/162] fix: trial readers split their own trials

---
 hyperion/helpers/classif_trial_data_reader.py    | 2 +-
 hyperion/helpers/multi_test_trial_data_reader.py | 2 +-
 hyperion/helpers/tracking_data_reader.py         | 2 +-
 hyperion/helpers/trial_data_reader.py            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/helpers/classif_trial_data_reader.py b/hyperion/helpers/classif_trial_data_reader.py
index 44e9b3b..b0c32a1 100644
--- a/hyperion/helpers/classif_trial_data_reader.py
+++ b/hyperion/helpers/classif_trial_data_reader.py
@@ -41,7 +41,7 @@ class ClassifTrialDataReader(object):
         ndx = TrialNdx(model_set, seg_set)
         logging.debug(num_seg_parts)
         if num_seg_parts > 1:
-            ndx = TrialNdx.split(1, 1, seg_idx, num_seg_parts)
+            ndx = ndx.split(1, 1, seg_idx, num_seg_parts)
 
         self.ndx = ndx
 
diff --git a/hyperion/helpers/multi_test_trial_data_reader.py b/hyperion/helpers/multi_test_trial_data_reader.py
index 71ac5a0..b8c7b3e 100644
--- a/hyperion/helpers/multi_test_trial_data_reader.py
+++ b/hyperion/helpers/multi_test_trial_data_reader.py
@@ -45,7 +45,7 @@ class MultiTestTrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             subseg2orig =subseg2orig.filter_info(ndx.seg_set)
 
diff --git a/hyperion/helpers/tracking_data_reader.py b/hyperion/helpers/tracking_data_reader.py
index 47db46f..620027e 100644
--- a/hyperion/helpers/tracking_data_reader.py
+++ b/hyperion/helpers/tracking_data_reader.py
@@ -38,7 +38,7 @@ class TrackingDataReader(object):
 
         segments = ExtSegmentList.load(segments_file)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             segments = segments.filter(ndx.seg_set)
         
diff --git a/hyperion/helpers/trial_data_reader.py b/hyperion/helpers/trial_data_reader.py
index 1fdbeea..9ce9dd8 100644
--- a/hyperion/helpers/trial_data_reader.py
+++ b/hyperion/helpers/trial_data_reader.py
@@ -43,7 +43,7 @@ class TrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
 
         self.enroll = enroll
-- 
2.43.0


From 2e6e0eea2efe600f797f1c34bacd46befbd03959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 108/162] fix: SequenceBatchGeneratorV1 with several parts

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 5f2a28d..b72f93b 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -49,7 +49,7 @@ class SequenceBatchGeneratorV1(object):
         self.r = RF.create(rspecifier, path_prefix=path_prefix, transform=transform, scp_sep=scp_sep)
         self.u2c = Utt2Info.load(key_file, sep=scp_sep)
         if num_parts > 1:
-            self.u2c = self.u2c.split(part_idx, num_parts, group_by_key=False)
+            self.u2c = self.u2c.split(part_idx, num_parts)
         self.batch_size = batch_size
 
         self.cur_epoch = init_epoch
-- 
2.43.0


From 5c5bc254efaf6957d9c2c7467ddc7760f3fde345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 109/162] fix: SequenceBatchGeneratorV1 keeps the lengths of
 the sequences left after pruning

---
 hyperion/generators/sequence_batch_generator_v1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index b72f93b..2f7e4a4 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -160,7 +160,8 @@ class SequenceBatchGeneratorV1(object):
     def _prune_min_length(self, min_length):
         keep_idx = self.seq_lengths >= min_length
         self.u2c = self.u2c.filter_index(keep_idx)
-        self._seq_lengths = None
+        self._seq_lengths = self.seq_lengths[keep_idx]
+        self._init_seq_lengths = self._seq_lengths
 
 
         
-- 
2.43.0


From c8cc3689559047849c412406c3d46bd81b8dbff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 110/162] fix: SequenceBatchGeneratorV1 keeps the lengths of
 the sequences after balancing classes

---
 hyperion/generators/sequence_batch_generator_v1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 2f7e4a4..71bde9e 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -206,8 +206,8 @@ class SequenceBatchGeneratorV1(object):
         # self.u2c.save('tmp.u2c')
         # self.u2c.save('/tmp.u2c')
         if self._init_seq_lengths is not None:
-            self._init_seq_legths = self._init_seq_lengths[idx]
-            self._seq_lengths = self._init_seq_legths
+            self._init_seq_lengths = self._init_seq_lengths[idx]
+            self._seq_lengths = self._init_seq_lengths
         
 
             
-- 
2.43.0


From 4e0b1763fed25ac891ecd28df7dd9080a352d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 111/162] fix: batch generators seed each epoch with its number

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 hyperion/generators/sequence_batch_generator_v2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 71bde9e..810fcf3 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -293,8 +293,8 @@ class SequenceBatchGeneratorV1(object):
 
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 18806a9..19544b8 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -222,8 +222,8 @@ class SequenceBatchGeneratorV2(object):
         
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
-- 
2.43.0


From ca25d13601015adb2b11bdcf6a8b15b5cd3fbe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 112/162] fix: SequenceBatchGeneratorV2 returns utterance
 labels

---
 hyperion/generators/sequence_batch_generator_v2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 19544b8..777c3b5 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -243,8 +243,8 @@ class SequenceBatchGeneratorV2(object):
 
         if self.return_utt1hot:
             num_utts = int(np.ceil(self.batch_size/self.num_egs_per_utt))
-            _, utt_ids = np.unique(utt_idx, return_inverse=True)
-            z = np.zeros((len(keys), self.num_utts), dtype=float_cpu())
+            _, utt_ids = np.unique(utt_idx[:len(keys)], return_inverse=True)
+            z = np.zeros((len(keys), num_utts), dtype=float_cpu())
             for i,k in enumerate(utt_ids):
                 z[i,k] = 1
             r.append(z)
-- 
2.43.0


From 36424a0cfda6c021b57dd861dbb8a23e11e74219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 113/162] fix: MFCC keeps the sign of the log-energy when it
 continues from the fft

---
 hyperion/feats/mfcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 2c74474..65134b8 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -225,7 +225,7 @@ class MFCC(object):
             X = x
             F = np.abs(X)
             if self.use_energy:
-                logE = F[:,0]
+                logE = np.real(X[:,0])
         elif self._input_step == MFCCSteps.FFT_MAG:
             F = x
             if self.use_energy:
-- 
2.43.0


From de3c2e0d52289fe0fb5cef9defd69bc2aaecd4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 114/162] fix: MFCC continues from log filter banks without
 energy

---
 hyperion/feats/mfcc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 65134b8..55c9cd1 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -238,6 +238,8 @@ class MFCC(object):
             if self.use_energy:
                 B = x[:,1:]
                 logE = x[:,0]
+            else:
+                B = x
 
         if self._input_step == MFCCSteps.WAVE:
             if self.snip_edges:
-- 
2.43.0


From 5f8884b6501d7431c86c9cfe4de773a8bda783c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 115/162] fix: MFCC without snip_edges accepts frames shorter
 than two shifts

---
 hyperion/feats/mfcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 55c9cd1..7c1bc99 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -250,7 +250,7 @@ class MFCC(object):
                 dlen_x = len_x - len(x)
                 #x = np.pad(x, (0, dlen_x), mode='reflect')
                 dlen1_x = int(np.floor((self._length-self._shift)/2))
-                dlen2_x = int(dlen_x - dlen1_x)
+                dlen2_x = max(0, int(dlen_x - dlen1_x))
                 x = np.pad(x, (dlen1_x, dlen2_x), mode='reflect')
 
             # add dither
-- 
2.43.0


From 48d6dccc180c27e3558d6c9fa2338c9d0f0465d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 116/162] fix: negative high_freq of the filter banks is an
 offset from Nyquist

---
 hyperion/feats/filter_banks.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperion/feats/filter_banks.py b/hyperion/feats/filter_banks.py
index d74b6cd..5267e9a 100644
--- a/hyperion/feats/filter_banks.py
+++ b/hyperion/feats/filter_banks.py
@@ -49,8 +49,8 @@ class FilterBankFactory(object):
     @staticmethod
     def make_mel_kaldi(num_filters, fft_length, fs, low_freq, high_freq):
 
-        if high_freq == 0:
-            high_freq = fs/2
+        if high_freq <= 0:
+            high_freq = fs/2 + high_freq
             
         mel_low_freq = FilterBankFactory.lin2mel(low_freq)
         mel_high_freq = FilterBankFactory.lin2mel(high_freq)
@@ -76,8 +76,8 @@ class FilterBankFactory(object):
     @staticmethod
     def make_mel_etsi(num_filters, fft_length, fs, low_freq, high_freq):
 
-        if high_freq == 0:
-            high_freq = fs/2
+        if high_freq <= 0:
+            high_freq = fs/2 + high_freq
 
         fs_2 = fs/2
         mel_low_freq = FilterBankFactory.lin2mel(low_freq)
@@ -98,8 +98,8 @@ class FilterBankFactory(object):
     @staticmethod
     def make_linear(num_filters, fft_length, fs, low_freq, high_freq):
 
-        if high_freq == 0:
-            high_freq = fs/2
+        if high_freq <= 0:
+            high_freq = fs/2 + high_freq
         
         fs_2 = fs/2
         fc = np.linspace(low_freq, high_freq, num_filters+2)
-- 
2.43.0


From 33e3943561227c08b1c6a3ea45c0a65d5e8f1b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 117/162] fix: short time transforms return no frames for
 signals much shorter than a frame

---
 hyperion/feats/stft.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/feats/stft.py b/hyperion/feats/stft.py
index 5c3459f..b88a348 100644
--- a/hyperion/feats/stft.py
+++ b/hyperion/feats/stft.py
@@ -18,7 +18,7 @@ def stft(x, frame_length, frame_shift, fft_length, window=None):
     if window is None:
         window = 1
         
-    num_frames = int(np.floor((len(x) - frame_length + frame_shift)/frame_shift))
+    num_frames = max(0, int(np.floor((len(x) - frame_length + frame_shift)/frame_shift)))
     X = np.zeros((num_frames, fft_length), dtype='complex64')
     j = 0
     for i in xrange(num_frames):
@@ -58,7 +58,7 @@ def strft(x, frame_length, frame_shift, fft_length, window=None):
     if window is None:
         window = 1
         
-    num_frames = int(np.floor((len(x) - frame_length + frame_shift)/frame_shift))
+    num_frames = max(0, int(np.floor((len(x) - frame_length + frame_shift)/frame_shift)))
     X = np.zeros((num_frames, int(fft_length/2+1)), dtype='complex64')
     j = 0
     for i in xrange(num_frames):
@@ -103,7 +103,7 @@ def st_logE(x, frame_length, frame_shift):
          Log-energy
      """
         
-    num_frames = int(np.floor((len(x) - frame_length + frame_shift)/frame_shift))
+    num_frames = max(0, int(np.floor((len(x) - frame_length + frame_shift)/frame_shift)))
         
     x2 = x**2
     e = np.zeros((num_frames,), dtype=float_cpu())
-- 
2.43.0


From f62253597b65cb4bc570f7a6bfe7d7b71e8e9c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 118/162] fix: audio readers accept a SegmentList

---
 hyperion/io/audio_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index acf1b27..01bd069 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -44,8 +44,9 @@ class AudioReader(object):
             self.with_segments = False
         else:
             self.with_segments = True
-            if isinstance(file_path, SegmentList):
-                self.segments = segments_path
+            if isinstance(segments_path, SegmentList):
+                self.segments = segments_path.copy()
+                self.segments.index_by_file = False
             else:
                 self.segments = SegmentList.load(segments_path, sep=' ', index_by_file=False)
 
-- 
2.43.0


From 5a976f34a0f56e6f0f2b2da3b1f2832742223478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 119/162] fix: report segments that start after the end of the
 recording

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 01bd069..6ff0169 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -132,7 +132,7 @@ class AudioReader(object):
         s_beg = int(t_beg * fs_i)
         if s_beg >= num_samples_i:
             raise Exception('segment %s tbeg=%.2f (num_sample=%d) longer that wav file %s (num_samples=%d)' % (
-                key, tbeg, sbeg, file_id, num_samples_i))
+                segment['segment_id'], t_beg, s_beg, file_id, num_samples_i))
 
         s_end = int(t_end * fs_i)
         if s_end > num_samples_i or t_end < 0:
-- 
2.43.0


From dbac5606d84ceca7262ef2c464836b08c7d49a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 120/162] fix: read all the remaining segments of the audio
 files

---
 hyperion/io/audio_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 6ff0169..89b19f3 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -221,7 +221,8 @@ class SequentialAudioReader(AudioReader):
           data: List of waveforms
         """
         if num_records == 0:
-            num_records = len(self.scp) - self.cur_item
+            num_total = len(self.segments) if self.with_segments else len(self.scp)
+            num_records = num_total - self.cur_item
 
         keys = []
         data = []
-- 
2.43.0


From cc75cd6c70746027cf8d619f6eed0b94bc97aa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 121/162] fix: write 8 and 24 bit audio with types that
 soundfile accepts

---
 hyperion/io/audio_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/audio_writer.py b/hyperion/io/audio_writer.py
index decef14..2677dee 100644
--- a/hyperion/io/audio_writer.py
+++ b/hyperion/io/audio_writer.py
@@ -23,8 +23,8 @@ subtype_to_npdtype = {'PCM_32': 'int32', 'ALAW': 'int16',
                       'IMA_ADPCM': 'int16', 'FLOAT': 'float32',
                       'PCM_16': 'int16', 'DOUBLE': 'float64',
                       'MS_ADPCM': 'int16', 'ULAW': 'int16',
-                      'PCM_U8': 'uint8', 'PCM_S8': 'int8', 'VORBIS': 'float32', 
-                      'GSM610': 'int16', 'G721_32': 'int16', 'PCM_24': 'int24'}
+                      'PCM_U8': 'int16', 'PCM_S8': 'int16', 'VORBIS': 'float32', 
+                      'GSM610': 'int16', 'G721_32': 'int16', 'PCM_24': 'int32'}
 
 class AudioWriter(object):
     """Abstract base class to write audio files.
-- 
2.43.0


From 59f7df48937286b9960cb994b6247f56964845bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:45 +0000
Subject: [PATCH 122/162] fix: KaldiDataReader is at the end of the file after
 reading all the remaining records

---
 hyperion/io/kaldi_data_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/io/kaldi_data_reader.py b/hyperion/io/kaldi_data_reader.py
index bc7c3d3..aab6326 100644
--- a/hyperion/io/kaldi_data_reader.py
+++ b/hyperion/io/kaldi_data_reader.py
@@ -40,8 +40,9 @@ class KaldiDataReader(object):
                         self.cur_record = first_record
                         
                   if num_records is None:
+                        final_record = len(keys)
                         keys = keys[self.cur_record:]
-                        self.cur_record = len(keys)
+                        self.cur_record = final_record
                   else:
                         final_record = min(self.cur_record+num_records, len(keys))
                         keys = keys[self.cur_record:final_record]
-- 
2.43.0


From 3b13b5feba0750f2e483d329ee282cdef23ed88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:45 +0000
Subject: [PATCH 123/162] fix: KaldiDataReader reads each record from its
 offset in the archive

---
 hyperion/io/kaldi_data_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperion/io/kaldi_data_reader.py b/hyperion/io/kaldi_data_reader.py
index aab6326..7c213f2 100644
--- a/hyperion/io/kaldi_data_reader.py
+++ b/hyperion/io/kaldi_data_reader.py
@@ -24,6 +24,9 @@ class KaldiDataReader(object):
             self.cur_record=0
             
             scp = SCPList.load(file_path, sep=sep)
+            if scp.offset is not None:
+                  scp.file_path = ['%s:%d' % (p, o) for (p, o) in
+                                   zip(scp.file_path, scp.offset)]
             if input_dir is None:
                   self.scp = OrderedDict((k, v) for (k, v) in
                                          zip(scp.key, scp.file_path))
-- 
2.43.0


From 8f300212f0f6d68ae66121c766981d5c11f8eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 124/162] fix: intervals of the NIST VAD files end after their
 last frame

---
 hyperion/bin/arkvad2nist.py | 4 ++--
 hyperion/bin/h5vad2nist.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 9a09582..4afcaaf 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -38,8 +38,8 @@ def bin2intervals(vad):
     prev_stop = 0
     for i, p in enumerate(change_points):
         start[i] = prev_stop
-        stop[i] = p
-        prev_stop = p
+        stop[i] = p + 1
+        prev_stop = p + 1
         state[i] = speech
         speech = not speech
         conf[i] = 1.0
diff --git a/hyperion/bin/h5vad2nist.py b/hyperion/bin/h5vad2nist.py
index 347fbff..1756f7e 100755
--- a/hyperion/bin/h5vad2nist.py
+++ b/hyperion/bin/h5vad2nist.py
@@ -38,8 +38,8 @@ def bin2intervals(vad):
     prev_stop = 0
     for i, p in enumerate(change_points):
         start[i] = prev_stop
-        stop[i] = p
-        prev_stop = p
+        stop[i] = p + 1
+        prev_stop = p + 1
         state[i] = speech
         speech = not speech
         conf[i] = 1.0
-- 
2.43.0


From e35b5856b724f0af42b8cafc4211ac1080034d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 125/162] fix: arkvad2nist imports config_logger

---
 hyperion/bin/arkvad2nist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 4afcaaf..a566150 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -18,7 +18,7 @@ import logging
 
 import numpy as np
 
-
+from hyperion.hyp_defs import config_logger
 from hyperion.io import KaldiDataReader
 
 def bin2intervals(vad):
-- 
2.43.0


From 523c486ca4765dca717fbb9ccd239cc1cd3345bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 126/162] fix: binary VAD from segments and RTTM without a file
 of numbers of frames

---
 hyperion/bin/rttm-to-bin-vad.py     | 4 ++--
 hyperion/bin/segments-to-bin-vad.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/rttm-to-bin-vad.py b/hyperion/bin/rttm-to-bin-vad.py
index d3191c6..0d7eb03 100755
--- a/hyperion/bin/rttm-to-bin-vad.py
+++ b/hyperion/bin/rttm-to-bin-vad.py
@@ -41,10 +41,10 @@ def rttm_to_bin_vad(rttm_file, num_frames_file, frame_shift, output_path, part_i
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
-        if part_idx == 1:
+        if part_idx == 1 and num_frames_file is not None:
             for file_id in utt2num_frames.index:
                 if not(file_id in segments_orig.uniq_file_id):
                     logging.warning('not speeech detected in %s, putting all to 1' % (file_id))
diff --git a/hyperion/bin/segments-to-bin-vad.py b/hyperion/bin/segments-to-bin-vad.py
index 73e89d5..47a7d23 100755
--- a/hyperion/bin/segments-to-bin-vad.py
+++ b/hyperion/bin/segments-to-bin-vad.py
@@ -39,7 +39,7 @@ def segments_to_bin_vad(segments_file, num_frames_file, frame_shift, output_path
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
             
-- 
2.43.0


From 4c9a2803fe063b40a5b868257a7d53deae79395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 127/162] fix: eval-plda-nvs1 uses its PLDA type

---
 hyperion/bin/eval-plda-nvs1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index f12c13d..8fffee3 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -29,7 +29,7 @@ from hyperion.transforms import TransformList
 
 def eval_plda(iv_file, ndx_file, enroll_file, test_file,
               preproc_file,
-              model_file, score_file, pool_method, **kwargs):
+              model_file, score_file, plda_type, pool_method, **kwargs):
     
     if preproc_file is not None:
         preproc = TransformList.load(preproc_file)
-- 
2.43.0


From 899a0c5a8bc9727d5cd3ebf4f1d6f336a8f87f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 128/162] fix: eval-2class-performance writes to the current
 directory

---
 hyperion/bin/eval-2class-performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-2class-performance.py b/hyperion/bin/eval-2class-performance.py
index f47c805..ce2e3bd 100755
--- a/hyperion/bin/eval-2class-performance.py
+++ b/hyperion/bin/eval-2class-performance.py
@@ -30,7 +30,7 @@ def eval_2class_performance(score_file, key_file, output_path):
     key = TrialKey.load(key_file)
 
     output_dir = os.path.dirname(output_path)
-    if not(os.path.isdir(output_dir)):
+    if output_dir != '' and not(os.path.isdir(output_dir)):
         os.makedirs(output_dir, exist_ok=True)
     
     tar, non = scr.get_tar_non(key)
-- 
2.43.0


From b7c836781aa1d83db64c5b2d82c5607b3fda744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 129/162] fix: eval-score-norm runs and takes its normalisation
 from the command line

---
 hyperion/bin/eval-score-norm.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 52d0076..5aef620 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -21,7 +21,7 @@ import numpy as np
 
 from hyperion.hyp_defs import config_logger
 from hyperion.score_norm import *
-from hyperion.utils.trial_scroes import TrialScores
+from hyperion.utils.trial_scores import TrialScores
 from hyperion.utils.trial_ndx import TrialNdx
 
 
@@ -34,13 +34,13 @@ def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
     scores_coh_coh = None
     
     if enr_coh_file is not None:
-        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = TrialScores.load(enr_coh_file)
+        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = scores_enr_coh.align_with_ndx(ndx)
 
     if coh_test_file is not None:
-        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = TrialScores.load(coh_test_file)
+        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = scores_coh_test.align_with_ndx(ndx)
 
     if coh_coh_file is not None:
@@ -53,24 +53,24 @@ def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
 
 
 
-def score_norm(score_file, ouput_file, norm_type,
-               enr_coh_file=None, coh_test_file=None, coh_coh_file=None,
-               adapt_coh=None):
+def eval_score_norm(score_file, output_file, norm_type,
+                    enr_coh_file=None, coh_test_file=None, coh_coh_file=None,
+                    adapt_coh=None):
 
     scores, scores_enr_coh, scores_coh_test, scores_coh_coh = load_scores(
         score_file, enr_coh_file, coh_test_file, coh_coh_file)
 
-    if norm_type == 't_norm':
+    if norm_type == 't-norm':
         assert scores_coh_test is not None
         norm = TNorm()
         scores_norm = norm.predict(scores.scores, scores_coh_test.scores)
 
-    if norm_type == 'z_norm':
+    if norm_type == 'z-norm':
         assert scores_enr_coh is not None
         norm = ZNorm()
         scores_norm = norm.predict(scores.scores, scores_enr_coh.scores)
 
-    if norm_type == 'zt_norm':
+    if norm_type == 'zt-norm':
         assert(scores_enr_coh is not None and scores_coh_test is not None
                and scores_coh_coh is not None)
         norm = ZTNorm()
@@ -79,17 +79,15 @@ def score_norm(score_file, ouput_file, norm_type,
                                    scores_enr_coh.scores,
                                    scores_coh_coh.scores)
 
-    if norm_type == 's_norm':
-        assert(scores_enr_coh is not None and scores_coh_test is not None
-               and scores_coh_coh is not None)
+    if norm_type == 's-norm':
+        assert scores_enr_coh is not None and scores_coh_test is not None
         norm = SNorm()
         scores_norm = norm.predict(scores.scores,
                                    scores_coh_test.scores,
-                                   scores_enr_coh.scores,
-                                   scores_coh_coh.scores)
+                                   scores_enr_coh.scores)
 
     scores.scores = scores_norm
-    scores.save(ouput_file)
+    scores.save(output_file)
     
 
     
-- 
2.43.0


From bf60a534187bf87eba6b32e6eb135ffcc606a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 130/162] fix: compute-energy-vad runs

---
 hyperion/bin/compute-energy-vad.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/bin/compute-energy-vad.py b/hyperion/bin/compute-energy-vad.py
index 03a1c60..7ca3b30 100755
--- a/hyperion/bin/compute-energy-vad.py
+++ b/hyperion/bin/compute-energy-vad.py
@@ -19,12 +19,12 @@ from hyperion.hyp_defs import config_logger
 from hyperion.io import SequentialAudioReader as AR
 #from hyperion.io import SequentialDataReaderFactory as DRF
 from hyperion.io import DataWriterFactory as DWF
-from hyperion.feats import energy_vad
+from hyperion.feats import EnergyVAD
 
 def compute_vad(input_path, output_path,  **kwargs):
 
-    mfcc_args = EnergyVAD.filter_args(**kwargs)
-    mfcc = EnergVAD(**mfcc_args)
+    vad_args = EnergyVAD.filter_args(**kwargs)
+    vad = EnergyVAD(**vad_args)
     
     input_args = AR.filter_args(**kwargs)
     reader = AR(input_path, **input_args)
@@ -56,7 +56,7 @@ if __name__ == "__main__":
     parser.add_argument('--input', dest='input_path', required=True)
     parser.add_argument('--output', dest='output_path', required=True)
 
-    DRF.add_argparse_args(parser)
+    AR.add_argparse_args(parser)
     EnergyVAD.add_argparse_args(parser)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int,
                         help='Verbose level')
-- 
2.43.0


From d898c03aaecbe30389eabb2007137df2a715996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:40 +0000
Subject: [PATCH 131/162] fix: programs have one docstring, before their
 __future__ imports

---
 hyperion/bin/ark2hyp.py                              | 3 +--
 hyperion/bin/arkvad2nist.py                          | 3 +--
 hyperion/bin/compute-gmm-post.py                     | 3 +--
 hyperion/bin/eval-2class-performance.py              | 3 +--
 hyperion/bin/eval-cos-1vs1.py                        | 3 +--
 hyperion/bin/eval-elbo-ubm.py                        | 3 +--
 hyperion/bin/eval-linear-gbe-up.py                   | 3 +--
 hyperion/bin/eval-linear-gbe.py                      | 3 +--
 hyperion/bin/eval-linear-svmc.py                     | 3 +--
 hyperion/bin/eval-logistic-regression.py             | 3 +--
 hyperion/bin/eval-plda-1vs1.py                       | 3 +--
 hyperion/bin/eval-plda-nvs1.py                       | 3 +--
 hyperion/bin/eval-q-scoring-homo-gbe.py              | 3 +--
 hyperion/bin/eval-score-norm.py                      | 3 +--
 hyperion/bin/h5vad2nist.py                           | 3 +--
 hyperion/bin/init-ubm.py                             | 2 --
 hyperion/bin/keras-adapt-cat-seq-embed.py            | 3 +--
 hyperion/bin/keras-adapt-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-eval-pdda-1vs1.py                 | 3 +--
 hyperion/bin/keras-eval-seq-embed.py                 | 3 +--
 hyperion/bin/keras-eval-seq-q-embed.py               | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector.py      | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector2.py     | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector3.py     | 3 +--
 hyperion/bin/keras-extract-seq-embed-deprec.py       | 3 +--
 hyperion/bin/keras-extract-seq-embed.py              | 3 +--
 hyperion/bin/keras-extract-seq-embed2.py             | 3 +--
 hyperion/bin/keras-extract-seq-embed5.py             | 3 +--
 hyperion/bin/keras-extract-seq-q-embed.py            | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector-pt.py       | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector.py          | 3 +--
 hyperion/bin/keras-extract-tied-vae-embed.py         | 3 +--
 hyperion/bin/keras-extract-tvae-ivector.py           | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-att.py        | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 3 +--
 hyperion/bin/keras-train-cat-seq-meta-embed.py       | 3 +--
 hyperion/bin/keras-train-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-train-cat-tied-dvae.py            | 3 +--
 hyperion/bin/keras-train-cat-tied-sup-vae.py         | 3 +--
 hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py    | 3 +--
 hyperion/bin/keras-train-gmm-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-pdda.py                     | 3 +--
 hyperion/bin/keras-train-sup-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-tcvae-ivector.py            | 3 +--
 hyperion/bin/merge-h5-files.py                       | 3 +--
 hyperion/bin/plot-vector-hist.py                     | 3 +--
 hyperion/bin/plot-vector-tsne.py                     | 3 +--
 hyperion/bin/train-cw-up.py                          | 3 +--
 hyperion/bin/train-cw.py                             | 3 +--
 hyperion/bin/train-gaussianizer.py                   | 3 +--
 hyperion/bin/train-lda.py                            | 3 +--
 hyperion/bin/train-linear-gbe-up.py                  | 3 +--
 hyperion/bin/train-linear-gbe.py                     | 3 +--
 hyperion/bin/train-linear-svmc.py                    | 3 +--
 hyperion/bin/train-logistic-regression.py            | 3 +--
 hyperion/bin/train-mvn.py                            | 3 +--
 hyperion/bin/train-nda.py                            | 3 +--
 hyperion/bin/train-pca.py                            | 3 +--
 hyperion/bin/train-plda.py                           | 3 +--
 hyperion/bin/train-q-scoring-homo-gbe.py             | 3 +--
 60 files changed, 59 insertions(+), 120 deletions(-)

diff --git a/hyperion/bin/ark2hyp.py b/hyperion/bin/ark2hyp.py
index cca7a23..784d0f8 100755
--- a/hyperion/bin/ark2hyp.py
+++ b/hyperion/bin/ark2hyp.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to h5 format (deprecated, use copy-feats.py)
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index a566150..2742017 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 5a16bf5..1720b37 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Computes GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-2class-performance.py b/hyperion/bin/eval-2class-performance.py
index ce2e3bd..a78fee6 100755
--- a/hyperion/bin/eval-2class-performance.py
+++ b/hyperion/bin/eval-2class-performance.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals EER, DCF, DET
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-cos-1vs1.py b/hyperion/bin/eval-cos-1vs1.py
index c8a0217..36f0e76 100755
--- a/hyperion/bin/eval-cos-1vs1.py
+++ b/hyperion/bin/eval-cos-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals cosine scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-elbo-ubm.py b/hyperion/bin/eval-elbo-ubm.py
index 9a4e960..d5e7bc7 100755
--- a/hyperion/bin/eval-elbo-ubm.py
+++ b/hyperion/bin/eval-elbo-ubm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evaluate the likelihood of the ubm on some data
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe-up.py b/hyperion/bin/eval-linear-gbe-up.py
index 3aeec95..85a401a 100755
--- a/hyperion/bin/eval-linear-gbe-up.py
+++ b/hyperion/bin/eval-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE with uncertainty propagation.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe.py b/hyperion/bin/eval-linear-gbe.py
index 7fdcd7e..9ff4413 100755
--- a/hyperion/bin/eval-linear-gbe.py
+++ b/hyperion/bin/eval-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-svmc.py b/hyperion/bin/eval-linear-svmc.py
index a13a08f..7d4895e 100755
--- a/hyperion/bin/eval-linear-svmc.py
+++ b/hyperion/bin/eval-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals SVM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-logistic-regression.py b/hyperion/bin/eval-logistic-regression.py
index 28cb9a0..635ae85 100755
--- a/hyperion/bin/eval-logistic-regression.py
+++ b/hyperion/bin/eval-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals logistic regression
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-1vs1.py b/hyperion/bin/eval-plda-1vs1.py
index 35380da..4ead233 100755
--- a/hyperion/bin/eval-plda-1vs1.py
+++ b/hyperion/bin/eval-plda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index 8fffee3..8efece9 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PLDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-q-scoring-homo-gbe.py b/hyperion/bin/eval-q-scoring-homo-gbe.py
index de1b70c..5d4b2ab 100755
--- a/hyperion/bin/eval-q-scoring-homo-gbe.py
+++ b/hyperion/bin/eval-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals Q-scoring back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 5aef620..7a787f8 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Score Normalization
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/h5vad2nist.py b/hyperion/bin/h5vad2nist.py
index 1756f7e..e726b6b 100755
--- a/hyperion/bin/h5vad2nist.py
+++ b/hyperion/bin/h5vad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/init-ubm.py b/hyperion/bin/init-ubm.py
index bbcf4be..5556315 100755
--- a/hyperion/bin/init-ubm.py
+++ b/hyperion/bin/init-ubm.py
@@ -2,9 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
 
-"""
 Initialize UBM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-adapt-cat-seq-embed.py b/hyperion/bin/keras-adapt-cat-seq-embed.py
index 6731b7c..89fb143 100755
--- a/hyperion/bin/keras-adapt-cat-seq-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-adapt-cat-seq-q-embed.py b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
index 80a32b8..1c061b5 100755
--- a/hyperion/bin/keras-adapt-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts q-embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-pdda-1vs1.py b/hyperion/bin/keras-eval-pdda-1vs1.py
index e7d0bc9..6246bce 100755
--- a/hyperion/bin/keras-eval-pdda-1vs1.py
+++ b/hyperion/bin/keras-eval-pdda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-embed.py b/hyperion/bin/keras-eval-seq-embed.py
index 6e2091e..142e813 100755
--- a/hyperion/bin/keras-eval-seq-embed.py
+++ b/hyperion/bin/keras-eval-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-q-embed.py b/hyperion/bin/keras-eval-seq-q-embed.py
index 4db30a0..52656ef 100755
--- a/hyperion/bin/keras-eval-seq-q-embed.py
+++ b/hyperion/bin/keras-eval-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
index e88b294..f8711ff 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
index 199d415..9ddc02b 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
index 4657c25..74decb5 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed-deprec.py b/hyperion/bin/keras-extract-seq-embed-deprec.py
index 606f419..08bb493 100755
--- a/hyperion/bin/keras-extract-seq-embed-deprec.py
+++ b/hyperion/bin/keras-extract-seq-embed-deprec.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed.py b/hyperion/bin/keras-extract-seq-embed.py
index 73300da..3ecce0f 100755
--- a/hyperion/bin/keras-extract-seq-embed.py
+++ b/hyperion/bin/keras-extract-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts x-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed2.py b/hyperion/bin/keras-extract-seq-embed2.py
index 0e7ffef..3b57040 100755
--- a/hyperion/bin/keras-extract-seq-embed2.py
+++ b/hyperion/bin/keras-extract-seq-embed2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed5.py b/hyperion/bin/keras-extract-seq-embed5.py
index dcc7320..626bab2 100755
--- a/hyperion/bin/keras-extract-seq-embed5.py
+++ b/hyperion/bin/keras-extract-seq-embed5.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-q-embed.py b/hyperion/bin/keras-extract-seq-q-embed.py
index f8d7a08..5e0a2a6 100755
--- a/hyperion/bin/keras-extract-seq-q-embed.py
+++ b/hyperion/bin/keras-extract-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence Q embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector-pt.py b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
index 441007f..674134d 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector-pt.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector.py b/hyperion/bin/keras-extract-tcvae-ivector.py
index 1d54b49..3167f93 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tied-vae-embed.py b/hyperion/bin/keras-extract-tied-vae-embed.py
index e793209..3b75603 100755
--- a/hyperion/bin/keras-extract-tied-vae-embed.py
+++ b/hyperion/bin/keras-extract-tied-vae-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TVAE sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tvae-ivector.py b/hyperion/bin/keras-extract-tvae-ivector.py
index 0dac764..465f802 100755
--- a/hyperion/bin/keras-extract-tvae-ivector.py
+++ b/hyperion/bin/keras-extract-tvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-att.py b/hyperion/bin/keras-train-cat-seq-embed-att.py
index c7f1d67..3b035e9 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-att.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-att.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vectors with attention
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index e788db4..99b6f7e 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vector with LDE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-meta-embed.py b/hyperion/bin/keras-train-cat-seq-meta-embed.py
index 4263ed6..b62d153 100755
--- a/hyperion/bin/keras-train-cat-seq-meta-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-meta-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE ??
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-q-embed.py b/hyperion/bin/keras-train-cat-seq-q-embed.py
index 9c993b3..9e116b9 100755
--- a/hyperion/bin/keras-train-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with q-scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index 87d06a9..b1feefb 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with discriminative VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index bd0479b..c463522 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with supervised VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
index 8e61bfd..32e3332 100755
--- a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE with gmm posteriors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
index c897bb6..730beba 100755
--- a/hyperion/bin/keras-train-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE with GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-pdda.py b/hyperion/bin/keras-train-pdda.py
index f6cb09c..3aef7d8 100755
--- a/hyperion/bin/keras-train-pdda.py
+++ b/hyperion/bin/keras-train-pdda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PDDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-sup-tcvae-ivector.py b/hyperion/bin/keras-train-sup-tcvae-ivector.py
index dd1ca68..0ed93f0 100755
--- a/hyperion/bin/keras-train-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-tcvae-ivector.py b/hyperion/bin/keras-train-tcvae-ivector.py
index e71911d..578d22a 100755
--- a/hyperion/bin/keras-train-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/merge-h5-files.py b/hyperion/bin/merge-h5-files.py
index 2a2b6c0..0a95940 100755
--- a/hyperion/bin/merge-h5-files.py
+++ b/hyperion/bin/merge-h5-files.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Merges multiple hdf5 files into one file
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-hist.py b/hyperion/bin/plot-vector-hist.py
index 6af79db..981d315 100755
--- a/hyperion/bin/plot-vector-hist.py
+++ b/hyperion/bin/plot-vector-hist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plot histogram of i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-tsne.py b/hyperion/bin/plot-vector-tsne.py
index 9aea1ff..63bd0ab 100755
--- a/hyperion/bin/plot-vector-tsne.py
+++ b/hyperion/bin/plot-vector-tsne.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plots TSNE embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw-up.py b/hyperion/bin/train-cw-up.py
index a4e7592..d66976f 100755
--- a/hyperion/bin/train-cw-up.py
+++ b/hyperion/bin/train-cw-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening with uncertainty prop.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw.py b/hyperion/bin/train-cw.py
index b5d3a55..9128e20 100755
--- a/hyperion/bin/train-cw.py
+++ b/hyperion/bin/train-cw.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 40996f3..22323f0 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Gaussianization for i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index be34061..da53891 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains LDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe-up.py b/hyperion/bin/train-linear-gbe-up.py
index f381482..6758c34 100755
--- a/hyperion/bin/train-linear-gbe-up.py
+++ b/hyperion/bin/train-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear GBE with uncertainty propagation
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe.py b/hyperion/bin/train-linear-gbe.py
index 4f0aefb..2036930 100755
--- a/hyperion/bin/train-linear-gbe.py
+++ b/hyperion/bin/train-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear Gaussian back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-svmc.py b/hyperion/bin/train-linear-svmc.py
index bb4353d..b849fd0 100755
--- a/hyperion/bin/train-linear-svmc.py
+++ b/hyperion/bin/train-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear SVM classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-logistic-regression.py b/hyperion/bin/train-logistic-regression.py
index 82985a4..61fecd4 100755
--- a/hyperion/bin/train-logistic-regression.py
+++ b/hyperion/bin/train-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear logistic regression classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-mvn.py b/hyperion/bin/train-mvn.py
index a91863b..ca42e4f 100755
--- a/hyperion/bin/train-mvn.py
+++ b/hyperion/bin/train-mvn.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains global mean and variance normalization of i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index a8755fa..157e7f3 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains NDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-pca.py b/hyperion/bin/train-pca.py
index 2bdb27d..d657183 100755
--- a/hyperion/bin/train-pca.py
+++ b/hyperion/bin/train-pca.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PCA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-plda.py b/hyperion/bin/train-plda.py
index e5af64f..782818a 100755
--- a/hyperion/bin/train-plda.py
+++ b/hyperion/bin/train-plda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PLDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-q-scoring-homo-gbe.py b/hyperion/bin/train-q-scoring-homo-gbe.py
index 0ce739c..19d9def 100755
--- a/hyperion/bin/train-q-scoring-homo-gbe.py
+++ b/hyperion/bin/train-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Q-scoring back-end
 """
 from __future__ import absolute_import
-- 
2.43.0


From 85bfb2aa35c5098c4841e40a31eeed4483180fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:40 +0000
Subject: [PATCH 132/162] fix: archives and models can be written to the
 current directory

---
 hyperion/bin/ark2hyp.py    | 2 +-
 hyperion/hyp_model.py      | 2 +-
 hyperion/io/data_writer.py | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperion/bin/ark2hyp.py b/hyperion/bin/ark2hyp.py
index 784d0f8..af64d3d 100755
--- a/hyperion/bin/ark2hyp.py
+++ b/hyperion/bin/ark2hyp.py
@@ -22,7 +22,7 @@ from hyperion.io import HypDataWriter, KaldiDataReader
 def ark2hyp(input_file, input_dir, output_file, field, chunk_size, squeeze):
 
     output_dir = os.path.dirname(output_file)
-    if not os.path.exists(output_dir):
+    if output_dir != '' and not os.path.exists(output_dir):
         os.makedirs(output_dir)
     
     ark_r = KaldiDataReader(input_file, input_dir)
diff --git a/hyperion/hyp_model.py b/hyperion/hyp_model.py
index 0a677ee..d302cb6 100644
--- a/hyperion/hyp_model.py
+++ b/hyperion/hyp_model.py
@@ -57,7 +57,7 @@ class HypModel(object):
     @abstractmethod
     def save(self, file_path):
         file_dir = os.path.dirname(file_path)
-        if not(os.path.isdir(file_dir)):
+        if file_dir != '' and not(os.path.isdir(file_dir)):
             os.makedirs(file_dir, exist_ok=True)
         with h5py.File(file_path,'w') as f:
             config=self.to_json()
diff --git a/hyperion/io/data_writer.py b/hyperion/io/data_writer.py
index 272b0b8..9e23299 100644
--- a/hyperion/io/data_writer.py
+++ b/hyperion/io/data_writer.py
@@ -37,13 +37,13 @@ class DataWriter(object):
         self.scp_sep = scp_sep
         
         archive_dir = os.path.dirname(archive_path)
-        if not os.path.exists(archive_dir):
-            os.makedirs(archive_dir)
+        if archive_dir != '':
+            os.makedirs(archive_dir, exist_ok=True)
 
         if script_path is not None:
             script_dir = os.path.dirname(script_path)
-            if not os.path.exists(script_dir):
-                os.makedirs(script_dir)
+            if script_dir != '':
+                os.makedirs(script_dir, exist_ok=True)
             
 
         
-- 
2.43.0


From 6d57fcdc7176c44ce0bcaf00b2f8c974bc05fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:15 +0000
Subject: [PATCH 133/162] fix: train-lda defines the verbose option that it
 reads

---
 hyperion/bin/train-lda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index da53891..1310494 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -82,6 +82,8 @@ if __name__ == "__main__":
     parser.add_argument('--no-append-tlist', dest='append_tlist', 
                         default=True, action='store_false')
     parser.add_argument('--name', dest='name', default='lda')
+    parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
+    
     args=parser.parse_args()
     config_logger(args.verbose)
     del args.verbose
-- 
2.43.0


From 197b2dbc7d89dc41bfd618e256f4df9bc1ebb3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:15 +0000
Subject: [PATCH 134/162] fix: train-cw and train-cw-up load the model of
 --input-path

---
 hyperion/bin/train-cw-up.py | 2 +-
 hyperion/bin/train-cw.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/train-cw-up.py b/hyperion/bin/train-cw-up.py
index d66976f..7127715 100755
--- a/hyperion/bin/train-cw-up.py
+++ b/hyperion/bin/train-cw-up.py
@@ -36,7 +36,7 @@ def load_model(input_path, with_lnorm, name, **kwargs):
         if with_lnorm:
             return LNormUP.load(input_path)
         else:
-            return CentWhitenUP(input_path)
+            return CentWhitenUP.load(input_path)
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
diff --git a/hyperion/bin/train-cw.py b/hyperion/bin/train-cw.py
index 9128e20..9d0e487 100755
--- a/hyperion/bin/train-cw.py
+++ b/hyperion/bin/train-cw.py
@@ -36,7 +36,7 @@ def load_model(input_path, with_lnorm, name, **kwargs):
         if with_lnorm:
             return LNorm.load(input_path)
         else:
-            return CentWhiten(input_path)
+            return CentWhiten.load(input_path)
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
-- 
2.43.0


From 3d43a99e81c1ebd1ab61fdeebbc06c217024af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:15 +0000
Subject: [PATCH 135/162] fix: train-gaussianizer finds the model of a
 transform list by name

---
 hyperion/bin/train-gaussianizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 22323f0..7ab15f5 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -24,10 +24,10 @@ from hyperion.pdfs.core import Normal
 from hyperion.transforms import TransformList, Gaussianizer
 
 
-def load_model(input_path, **kwargs):
+def load_model(input_path, name=None, **kwargs):
 
     if input_path is None:
-        return Gaussianizer(**kwargs)
+        return Gaussianizer(name=name, **kwargs)
 
     try:
         return Gaussianizer.load(input_path)
-- 
2.43.0


From 7f9078711497269983d9ded75a4f34ce86c36a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:15 +0000
Subject: [PATCH 136/162] fix: PLDAFactory.filter_train_args negates the
 negative options

---
 hyperion/helpers/plda_factory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index 2713f77..0d346e9 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -65,9 +65,10 @@ class PLDAFactory(object):
         neg_args2 = ('fullcov_W', 'update_mu', 'update_V', 'update_U',
                       'update_B', 'update_W', 'update_D')
 
-        for a,b in zip(ne_args1, neg_args2):
-            d[b] = not d[a]
-            del d[a]
+        for a,b in zip(neg_args1, neg_args2):
+            if a in d:
+                d[b] = not d[a]
+                del d[a]
 
         return d
 
-- 
2.43.0


From 75513c89740bc222f1c405931ae2a114cbfa31c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:15 +0000
Subject: [PATCH 137/162] fix: --diag-W selects a diagonal W

---
 hyperion/helpers/plda_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index 0d346e9..3d05efe 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -96,7 +96,7 @@ class PLDAFactory(object):
                             help='num. of eigenchannels')
 
         parser.add_argument(p1+'diag-W', dest=(p2+'diag_W'),
-                            default=False, action='store_false',
+                            default=False, action='store_true',
                             help='use diagonal covariance W')
         parser.add_argument(p1+'no-update-mu', dest=(p2+'no_update_mu'),
                             default=False, action='store_true',
-- 
2.43.0


From 784732e8161281f8989225d6536cf7e7d4163e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:15 +0000
Subject: [PATCH 138/162] fix: --update-mu and --update-t of transforms can be
 false

---
 hyperion/transforms/cent_whiten.py | 5 +++--
 hyperion/transforms/pca.py         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index d6aba47..75fb082 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -13,6 +13,7 @@ import h5py
 import scipy.linalg as la
 
 from ..hyp_model import HypModel
+from ..utils.misc import str2bool
 from ..pdfs import Normal
 
 class CentWhiten(HypModel):
@@ -133,11 +134,11 @@ class CentWhiten(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
 
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
 
         parser.add_argument('--name', dest='name', default='lnorm')
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index 7968a41..57584dc 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -13,6 +13,7 @@ import h5py
 import scipy.linalg as la
 
 from ..hyp_model import HypModel
+from ..utils.misc import str2bool
 from ..pdfs import Normal
 
 
@@ -129,10 +130,10 @@ class PCA(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
         parser.add_argument(p1+'pca-dim', dest=(p2+'pca_dim'), default=None,
                             type=int,
-- 
2.43.0


From 7b12cc670d371bc21f5b6a5aafd72115f605a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:15 +0000
Subject: [PATCH 139/162] fix: classifier options do not conflict with the
 verbose option of the programs

---
 hyperion/classifiers/binary_logistic_regression.py | 3 ---
 hyperion/classifiers/linear_svmc.py                | 3 ---
 hyperion/classifiers/logistic_regression.py        | 3 ---
 3 files changed, 9 deletions(-)

diff --git a/hyperion/classifiers/binary_logistic_regression.py b/hyperion/classifiers/binary_logistic_regression.py
index b3735f7..a852298 100644
--- a/hyperion/classifiers/binary_logistic_regression.py
+++ b/hyperion/classifiers/binary_logistic_regression.py
@@ -118,9 +118,6 @@ class BinaryLogisticRegression(LogisticRegression):
                                   'Dual formulation is only implemented for l2 penalty with liblinear solver'))
         parser.add_argument(p1+'tol', dest=(p2+'tol'), default=1e-4, type=float,
                             help='tolerance for stopping criteria')
-        parser.add_argument(p1+'verbose', dest=(p2+'verbose'), 
-                            default=0, type=int,
-                            help='For the liblinear and lbfgs solvers')
         parser.add_argument(p1+'no-warm-start', dest=(p2+'no_warm_start'),
                             default=False, action='store_true',
                             help='don\'t use previous model to start')
diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 5f65d05..ec5e836 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -164,9 +164,6 @@ class LinearSVMC(HypModel):
         parser.add_argument(p1+'multi-class', dest=(p2+'multi_class'), 
                             default='ovr', choices=['ovr', 'crammer_singer'],
                             help=('ovr fits a binary problem for each class else it minimizes the multinomial loss.'))
-        parser.add_argument(p1+'verbose', dest=(p2+'verbose'), 
-                            default=0, type=int,
-                            help='For the liblinear and lbfgs solvers')
  
         parser.add_argument(p1+'balance-class-weight', dest=(p2+'balance_class_weight'),
                             default=False, action='store_true',
diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index c9dfa53..801d5f7 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -250,9 +250,6 @@ class LogisticRegression(HypModel):
                             default='ovr', choices=['ovr', 'multinomial'],
                             help=('ovr fits a binary problem for each class else it minimizes the multinomial loss.'
                                   'Does not work for liblinear solver'))
-        parser.add_argument(p1+'verbose', dest=(p2+'verbose'), 
-                            default=0, type=int,
-                            help='For the liblinear and lbfgs solvers')
         parser.add_argument(p1+'num-jobs', dest=(p2+'num_jobs'), 
                             default=1, type=int,
                             help='number of cores for ovr')
-- 
2.43.0


From 826f943b3fa076b698c97f6f3c6eee19976781f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:15 +0000
Subject: [PATCH 140/162] fix: export NSbSw

---
 hyperion/transforms/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/__init__.py b/hyperion/transforms/__init__.py
index d38753d..3cc1260 100644
--- a/hyperion/transforms/__init__.py
+++ b/hyperion/transforms/__init__.py
@@ -6,7 +6,7 @@ from __future__ import absolute_import
 
 from .cent_whiten import CentWhiten
 from .lnorm import LNorm
-from .sb_sw import SbSw
+from .sb_sw import SbSw, NSbSw
 from .pca import PCA
 from .lda import LDA
 from .nda import NDA
-- 
2.43.0


From d08f79b99c032f039ff150cf5f42bf90885678a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:30 +0000
Subject: [PATCH 141/162] fix: RTTM.get_segment_names sees the turns inside the
 segment

---
 hyperion/utils/rttm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index f9b025e..2d3cfc5 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -401,7 +401,9 @@ class RTTM(object):
                                        ((self.segments['tbeg']<=tbeg) &
                                         (self.segments['tbeg'] + self.segments['tdur'] > tbeg) |
                                         (self.segments['tbeg']<tend) &
-                                        (self.segments['tbeg'] + self.segments['tdur'] >=tend))]
+                                        (self.segments['tbeg'] + self.segments['tdur'] >=tend) |
+                                        (self.segments['tbeg']>=tbeg) &
+                                        (self.segments['tbeg'] + self.segments['tdur'] <=tend))]
             num_segm_i = len(segments_i)
             if num_segm_i == 0:
                 num_names[i] = 0
@@ -431,7 +433,8 @@ class RTTM(object):
                 prev_file_id = file_id
 
             segments_i = segments_f[((tbeg_f<=tbeg) & (tend_f > tbeg)) |
-                                    ((tbeg_f < tend) & (tend_f >=tend))]
+                                    ((tbeg_f < tend) & (tend_f >=tend)) |
+                                    ((tbeg_f >= tbeg) & (tend_f <= tend))]
 
             num_segm_i = len(segments_i)
             if num_segm_i == 0:
-- 
2.43.0


From fd632329a425be0fd06328a78f39bfc0cb77ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:30 +0000
Subject: [PATCH 142/162] fix: RTTM.eliminate_overlaps cuts both segments of
 each overlap

---
 hyperion/utils/rttm.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 2d3cfc5..85bf344 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -475,14 +475,12 @@ class RTTM(object):
         # logging.debug(index)
         # logging.debug(self.segments.loc[index])
         # logging.debug(self.segments.loc[index])
-        self.segments.loc[index, 'tbeg'] = tavg[index]
-        # logging.debug(self.segments.loc[index])
-        index_1 = index.shift(-1)
-        index_1[index_1.isnull()] = False
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index_1, 'tdur'] = tavg[index] - tbeg[index_1]
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index, 'tdur'] = tend[index] - tavg[index]
+        new_tbeg = tbeg.where(~index, tavg)
+        # the end of a segment is the begin of the next one, if they overlap
+        index_1 = index.shift(-1, fill_value=False)
+        new_tend = tend.where(~index_1, tavg.shift(-1))
+        self.segments['tbeg'] = new_tbeg
+        self.segments['tdur'] = new_tend - new_tbeg
 
 
 
-- 
2.43.0


From 4bb6a41f45fb5f9ed1bc6b1d20b7b72766dab646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:30 +0000
Subject: [PATCH 143/162] fix: RTTM.to_matrix

---
 hyperion/utils/rttm.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 85bf344..48ac2e0 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -486,19 +486,18 @@ class RTTM(object):
 
     
     def to_matrix(self, file_id, frame_shift=0.001):
-        if self.index_by_file:
-            segments = self.segments[file_id]
-        else:
-            segments = self.segments[self.segments['file_id'] == file_id]
+        segments = self.segments[self.segments['file_id'] == file_id]
 
         u_names, name_ids = np.unique(segments['name'], return_inverse=True)
-        tbeg = np.round(segments['tbeg']/frame_shift).astype(dtype=int)
-        tend = np.round((segments['tbeg']+segments['tdur'])/frame_shift).astype(dtype=int)
+        tbeg = np.round(np.asarray(segments['tbeg']/frame_shift, dtype=float)).astype(dtype=int)
+        tend = np.round(np.asarray((segments['tbeg']+segments['tdur'])/frame_shift, dtype=float)).astype(dtype=int)
 
-        M = np.zeros((tend[-1], len(u_names)), dtype=int)
-        for i in xrange(len(u_names)):
+        M = np.zeros((np.max(tend), len(u_names)), dtype=int)
+        for i in xrange(len(segments)):
             M[tbeg[i]:tend[i], name_ids[i]] = 1
 
+        return M
+
 
             
     def compute_stats(self, nbins_dur=None):
-- 
2.43.0


From 0a6795742b8679e3be248b9531876e4ad49cf859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:30 +0000
Subject: [PATCH 144/162] fix: default number of bins in RTTM.compute_stats

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 48ac2e0..9eff71d 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -513,7 +513,7 @@ class RTTM(object):
                              index=['mean','std','median','model','min','max'])
 
         if nbins_dur is None:
-            nbins_dur = np.max(5, np.min(100, len(self.segments)/10))
+            nbins_dur = max(5, min(100, len(self.segments)//10))
         hist_dur = np.histogram(self.segments['tdur'], nbins_dur)
 
         
-- 
2.43.0


From 29c67fca9de42ae87680ff89a83d68f8e355655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:17 +0000
Subject: [PATCH 145/162] fix: merging script lists keeps the offsets and
 ranges of all of them

---
 hyperion/utils/scp_list.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index c36a358..2fe4b83 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -290,14 +290,19 @@ class SCPList(object):
         key = np.concatenate(tuple(key_list))
         file_path = np.concatenate(tuple(file_list))
 
-        if offset_list[0] is None:
+        if all(item is None for item in offset_list):
             offset = None
         else:
+            if any(item is None for item in offset_list):
+                raise ValueError('cannot merge lists with and without data positions')
             offset = np.concatenate(tuple(offset_list))
 
-        if range_list[0] is None:
+        if all(item is None for item in range_list):
             range_spec = None
         else:
+            # [0, 0] means the full range
+            range_list = [np.zeros((len(k), 2), dtype=np.int64) if r is None else r
+                          for k, r in zip(key_list, range_list)]
             range_spec = np.concatenate(tuple(range_list))
 
         return cls(key, file_path, offset, range_spec)
-- 
2.43.0


From bfa4d3f745c515261be258954b65ddfb68aa59e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:17 +0000
Subject: [PATCH 146/162] fix: SegmentList.load keeps numeric ids as text

---
 hyperion/utils/segment_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index abbecc3..4d43642 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -244,7 +244,9 @@ class SegmentList(object):
           SegmentList object.
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
-                         names=['segment_id','file_id','tbeg','tend'])
+                         names=['segment_id','file_id','tbeg','tend'],
+                         dtype={'segment_id': str, 'file_id': str},
+                         keep_default_na=False)
         return cls(df, index_by_file=index_by_file)
 
 
-- 
2.43.0


From 151613ae86c8fb8342fa525c3e512f11e32bfb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:17 +0000
Subject: [PATCH 147/162] fix: RTTM.load keeps ids as text and <NA> fields

---
 hyperion/utils/rttm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 9eff71d..077a936 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -296,7 +296,10 @@ class RTTM(object):
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
                          names=['segment_type','file_id','chnl','tbeg','tdur',
-                                'ortho','stype','name','conf','slat'])
+                                'ortho','stype','name','conf','slat'],
+                         dtype={'segment_type': str, 'file_id': str,
+                                'ortho': str, 'stype': str, 'name': str},
+                         keep_default_na=False)
         return cls(df, index_by_file=index_by_file)
 
 
-- 
2.43.0


From 1dc6b5b61be6125c3602309c9a3392bc43c20b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:17 +0000
Subject: [PATCH 148/162] fix: Utt2Info.load keeps all the columns as text

---
 hyperion/utils/utt2info.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index db38007..5aa88f6 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -165,17 +165,18 @@ class Utt2Info(object):
       
     
     @classmethod
-    def load(cls, file_path, sep=' ', dtype={0:np.str, 1:np.str}):
+    def load(cls, file_path, sep=' ', dtype=str):
         """Loads utt2info list from text file.
 
         Args:
           file_path: File to read the list.
           sep: Separator between the key and file_path in the text file.
-          dtype: Dictionary with the dtypes of each column.
+          dtype: Data type of the columns or dictionary with the dtypes of each column.
         Returns:
           Utt2Info object
         """
-        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype)
+        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype,
+                         keep_default_na=False)
         df = df.rename(index=str, columns={0:'key'})
         return cls(df)
 
-- 
2.43.0


From 99a7ec002b9d371117e9cee704393806dcd1244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:17 +0000
Subject: [PATCH 149/162] fix: numeric file ids in the number of frames of bin
 VAD programs

---
 hyperion/bin/rttm-to-bin-vad.py     | 3 ++-
 hyperion/bin/segments-to-bin-vad.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/rttm-to-bin-vad.py b/hyperion/bin/rttm-to-bin-vad.py
index 0d7eb03..2410b19 100755
--- a/hyperion/bin/rttm-to-bin-vad.py
+++ b/hyperion/bin/rttm-to-bin-vad.py
@@ -26,7 +26,8 @@ def rttm_to_bin_vad(rttm_file, num_frames_file, frame_shift, output_path, part_i
 
     num_frames = None
     if num_frames_file is not None:
-        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0)
+        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0,
+                                     dtype={'file_id': str}, keep_default_na=False)
 
     segments = RTTM.load(rttm_file).to_segment_list()
     segments_orig = copy.deepcopy(segments)
diff --git a/hyperion/bin/segments-to-bin-vad.py b/hyperion/bin/segments-to-bin-vad.py
index 47a7d23..40134c8 100755
--- a/hyperion/bin/segments-to-bin-vad.py
+++ b/hyperion/bin/segments-to-bin-vad.py
@@ -25,7 +25,8 @@ def segments_to_bin_vad(segments_file, num_frames_file, frame_shift, output_path
 
     num_frames = None
     if num_frames_file is not None:
-        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0)
+        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0,
+                                     dtype={'file_id': str}, keep_default_na=False)
 
     segments = SegmentList.load(segments_file)
     if num_parts  > 1:
-- 
2.43.0


From 230444c2690bb82e081c3c687632c4bcb422c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:52 +0000
Subject: [PATCH 150/162] fix: RTTM.to_segment_list gives different ids to
 turns that begin in the same second

---
 hyperion/utils/rttm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 077a936..14e7c8c 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -533,8 +533,11 @@ class RTTM(object):
 
         segments = self.segments[['file_id','tbeg']].copy()
         segments['tend'] = self.segments['tbeg'] + self.segments['tdur']
-        segments['segment_id'] = ['%s-%07d-%07d' % (file_id, tbeg, tdur)
-                                  for file_id, tbeg, tdur in zip(
+        # times of the ids in milliseconds, two turns can begin in the same second
+        segments['segment_id'] = ['%s-%07d-%07d' % (file_id,
+                                                    1000*tbeg + 0.5,
+                                                    1000*tend + 0.5)
+                                  for file_id, tbeg, tend in zip(
                                           segments['file_id'],
                                           segments['tbeg'],
                                           segments['tend'])]
-- 
2.43.0


From 5d4919bb933f289f5a3a0b9c2f895ab01fcea1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:36 +0000
Subject: [PATCH 151/162] fix: KaldiMatrix.write converts arrays that are not
 single or double precision

---
 hyperion/utils/kaldi_matrix.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/kaldi_matrix.py b/hyperion/utils/kaldi_matrix.py
index 1532948..523b04e 100644
--- a/hyperion/utils/kaldi_matrix.py
+++ b/hyperion/utils/kaldi_matrix.py
@@ -163,14 +163,18 @@ class KaldiMatrix(object):
           binary: True if we write in binary file and False if we write to text file.
         """
         if binary:
-            t1 = 'F' if self.data.dtype == np.float32 else 'D'
+            data = self.data
+            if data.dtype != np.float32:
+                # anything else is written in double precision
+                data = data.astype('float64', copy=False)
+            t1 = 'F' if data.dtype == np.float32 else 'D'
             t2 = 'M' if self.data.ndim == 2 else 'V'
             token = t1+t2
             write_token(f, binary, token)
             if self.data.ndim == 2:
                 write_int32(f, binary, self.num_rows)
             write_int32(f, binary, self.num_cols)
-            f.write(self.data.tobytes())
+            f.write(data.tobytes())
         else:
             if self.num_cols == 0:
                 f.write(' [ ]\n')
-- 
2.43.0


From b98b9efdeab9cdc68c18920b191da4697165c1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:20 +0000
Subject: [PATCH 152/162] fix: AdaptSNorm does not select missing cohort scores
 over negative ones

---
 hyperion/score_norm/adapt_s_norm.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 194de63..1f71385 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -35,12 +35,21 @@ class AdaptSNorm(ScoreNorm):
 
         if mask_coh_test is not None:
             scores_coh_test = scores_coh_test.copy()
+            # missing scores are the last to be selected
+            scores_coh_test[mask_coh_test == False] = -np.inf
+            coh_test_order = np.argsort(scores_coh_test, axis=0)
             scores_coh_test[mask_coh_test == False] = 0
+        else:
+            coh_test_order = np.argsort(scores_coh_test, axis=0)
         if mask_enr_coh is not None:
             scores_enr_coh = scores_enr_coh.copy()
+            scores_enr_coh[mask_enr_coh == False] = -np.inf
+            enr_coh_order = np.argsort(scores_enr_coh, axis=1)
             scores_enr_coh[mask_enr_coh == False] = 0
+        else:
+            enr_coh_order = np.argsort(scores_enr_coh, axis=1)
             
-        best_idx = np.flipud(np.argsort(scores_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
+        best_idx = np.flipud(coh_test_order)[self.nbest_discard:self.nbest_discard+nbest]
         scores_z_norm = np.zeros_like(scores)
         for i in xrange(scores.shape[1]):
             best_idx_i = best_idx[:,i]
@@ -62,7 +71,7 @@ class AdaptSNorm(ScoreNorm):
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
 
-        best_idx = np.fliplr(np.argsort(scores_enr_coh, axis=1))[:,self.nbest_discard:self.nbest_discard+nbest]
+        best_idx = np.fliplr(enr_coh_order)[:,self.nbest_discard:self.nbest_discard+nbest]
         scores_t_norm = np.zeros_like(scores)
         for i in xrange(scores.shape[0]):
             best_idx_i = best_idx[i]
-- 
2.43.0


From 8d5102d8b76dece453aa2f3dc3ed523a6c8f34ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:20 +0000
Subject: [PATCH 153/162] fix: masked score normalization of constant cohorts
 does not give NaN

---
 hyperion/score_norm/adapt_s_norm.py | 10 ++++++----
 hyperion/score_norm/t_norm.py       |  3 ++-
 hyperion/score_norm/z_norm.py       |  3 ++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 1f71385..85928a1 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -64,8 +64,9 @@ class AdaptSNorm(ScoreNorm):
                 norm = np.mean(mask_enr_coh[:, best_idx_i],
                                axis=1, keepdims=True)
                 mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_enr_coh[:, best_idx_i]**2,
-                                      axis=1, keepdims=True)/norm - mu_z**2)
+                s_z = np.sqrt(np.maximum(
+                    np.mean(scores_enr_coh[:, best_idx_i]**2,
+                            axis=1, keepdims=True)/norm - mu_z**2, 0))
 
             s_z[s_z<self.std_floor] = self.std_floor
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
@@ -86,8 +87,9 @@ class AdaptSNorm(ScoreNorm):
                 norm = np.mean(mask_coh_test[best_idx_i,:],
                                axis=0, keepdims=True)
                 mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_coh_test[best_idx_i,:]**2,
-                                      axis=0, keepdims=True)/norm - mu_z**2)
+                s_z = np.sqrt(np.maximum(
+                    np.mean(scores_coh_test[best_idx_i,:]**2,
+                            axis=0, keepdims=True)/norm - mu_z**2, 0))
 
             s_z[s_z<self.std_floor] = self.std_floor
             scores_t_norm[i,:] = (scores[i,:] - mu_z)/s_z
diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 6c28743..ffe6b24 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -25,7 +25,8 @@ class TNorm(ScoreNorm):
             scores_coh_test[mask==False] = 0
             n_t = np.mean(mask, axis=0, keepdims=True)
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
-            s_t = np.sqrt(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2)
+            s_t = np.sqrt(np.maximum(
+                np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2, 0))
             
         s_t[s_t<self.std_floor] = self.std_floor
         
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index f3c67d7..853aa9c 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -26,7 +26,8 @@ class ZNorm(ScoreNorm):
             scores_enr_coh[mask==False] = 0
             n_z = np.mean(mask, axis=1, keepdims=True)
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
-            s_z = np.sqrt(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2)
+            s_z = np.sqrt(np.maximum(
+                np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2, 0))
 
         s_z[s_z<self.std_floor] = self.std_floor
         
-- 
2.43.0


From 373032e666047fb005eadcf719c68b8c3067073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:22 +0000
Subject: [PATCH 154/162] fix: MFCC energy does not overwrite the input or the
 extra spectral outputs

---
 hyperion/feats/mfcc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 7c1bc99..e354763 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -322,6 +322,8 @@ class MFCC(object):
             if self._output_step == MFCCSteps.LOGFB:
                 R = np.hstack((logE[:, None], R))
             else:
+                # copy to not overwrite the input or the other outputs
+                R = R.copy()
                 R[:,0] = logE
 
         if not(return_fft or return_fft_mag or return_logfb):
-- 
2.43.0


From 61b5d1ea12fb4badd559a9897026d824592517cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:02 +0000
Subject: [PATCH 155/162] fix: EnergyVAD does not pad by a negative number of
 samples

---
 hyperion/feats/energy_vad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 5c1623b..d19c615 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -85,7 +85,7 @@ class EnergyVAD(object):
                 len_x = (num_frames-1)*self._shift + self._length
                 dlen_x = len_x - len(x)
                 dlen1_x = int(np.floor((self._length-self._shift)/2))
-                dlen2_x = int(dlen_x - dlen1_x)
+                dlen2_x = max(0, int(dlen_x - dlen1_x))
                 x = np.pad(x, (dlen1_x, dlen2_x), mode='reflect')
 
             # add dither
-- 
2.43.0


From 361773d5e8713c02a622f3a9cee32379735d4bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:01 +0000
Subject: [PATCH 156/162] fix: H5Merger merges files without datasets

---
 hyperion/io/h5_merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/h5_merger.py b/hyperion/io/h5_merger.py
index cb491fe..6013bc9 100644
--- a/hyperion/io/h5_merger.py
+++ b/hyperion/io/h5_merger.py
@@ -33,7 +33,7 @@ class H5Merger(object):
         hr = HR(input_file)
         datasets = hr.get_datasets()
         if self.chunk_size is None:
-            chunk = len(datasets)
+            chunk = max(1, len(datasets))
         else:
             chunk = self.chunk_size
         
-- 
2.43.0


From 77ddd589e26a80beedf0149e6a908bcb61a838f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:52 +0000
Subject: [PATCH 157/162] fix: full sequences of exactly the minimum length are
 read

---
 hyperion/helpers/sequence_post_reader.py | 2 +-
 hyperion/helpers/sequence_reader.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index b8b3425..e686487 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -101,7 +101,7 @@ class SequencePostReader(SequenceReader):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 99dae7d..8252921 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -193,7 +193,7 @@ class SequenceReader(object):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
-- 
2.43.0


From 65a44f99329793f306a954220b88377062e6c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:00 +0000
Subject: [PATCH 158/162] fix: batches of subsequences of unbalanced sequences
 are completed

---
 hyperion/helpers/sequence_post_reader.py | 4 ++--
 hyperion/helpers/sequence_reader.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index e686487..c2a2e0f 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -124,7 +124,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -210,7 +210,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 8252921..c1432ad 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -210,7 +210,7 @@ class SequenceReader(object):
         seq_length = self.seq_length
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -274,7 +274,7 @@ class SequenceReader(object):
         
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
-- 
2.43.0


From 0e36ea30500d533b965f66ac2ee261ba979c3d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:00 +0000
Subject: [PATCH 159/162] fix: sequences shorter than the overlap have no
 negative number of subsequences

---
 hyperion/helpers/sequence_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index c1432ad..7382f64 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -98,6 +98,7 @@ class SequenceReader(object):
             else:
                 shift = self.max_seq_length - self.seq_split_overlap
                 num_subseqs = (np.floor((seq_length-self.seq_split_overlap)/shift)).astype(int)
+                num_subseqs = np.maximum(num_subseqs, 0)
                 remainder = seq_length - num_subseqs*shift
                 num_subseqs += (remainder >= self.min_seq_length).astype(int)
             self._num_subseqs = num_subseqs
-- 
2.43.0


From d251137e5970b40b01b34578790127543d481887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:00 +0000
Subject: [PATCH 160/162] fix: SequenceReader applies the preprocessing

---
 hyperion/helpers/sequence_post_reader.py | 5 +++++
 hyperion/helpers/sequence_reader.py      | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index c2a2e0f..8b19aed 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -71,6 +71,9 @@ class SequencePostReader(SequenceReader):
             
         self.cur_batch +=1
 
+        if self.preproc is not None:
+            x = [self.preproc.predict(x_i) for x_i in x]
+
         if return_3d:
             x, sample_weight = to3D_by_seq(x, max_length=max_seq_length)
             r, _ = to3D_by_seq(r, max_length=max_seq_length)
@@ -84,6 +87,8 @@ class SequencePostReader(SequenceReader):
         key = self.scp.file_path[self.cur_seq]
         self.cur_seq += 1
         x = self.r.read([key], field=self.field, return_tensor=False)[0]
+        if self.preproc is not None:
+            x = self.preproc.predict(x)
         r = self.post_r.read([key], field='.r', return_tensor=False)[0]
         index = self.post_r.read([key], field='.index', return_tensor=False)[0]
         r = self.to_dense(r, index, self.num_comp)
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 7382f64..ac4b3cc 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -169,6 +169,9 @@ class SequenceReader(object):
             
         self.cur_batch +=1
 
+        if self.preproc is not None:
+            x = [self.preproc.predict(x_i) for x_i in x]
+
         if return_3d:
             x, sample_weight = to3D_by_seq(x, max_length=max_seq_length)
             return x, sample_weight, keys
@@ -180,7 +183,10 @@ class SequenceReader(object):
     def read_next_seq(self):
         key = self.scp.file_path[self.cur_seq]
         self.cur_seq += 1
-        return self.r.read([key], field=self.field, return_tensor=False)[0], key
+        x = self.r.read([key], field=self.field, return_tensor=False)[0]
+        if self.preproc is not None:
+            x = self.preproc.predict(x)
+        return x, key
     
 
     
-- 
2.43.0


From 71755971c5cb3311dc31c639a12dfb4998dfbd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:00 +0000
Subject: [PATCH 161/162] fix: SequenceReader arguments have a default minimum
 length

---
 hyperion/helpers/sequence_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index ac4b3cc..0f3d59e 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -350,7 +350,7 @@ class SequenceReader(object):
                             help=('keeps SUBSAMPLE %% of frames of the seq'))
 
         parser.add_argument(p1+'min-seq-length', dest=(p2+'min_seq_length'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum number of frames '
                                   'when we doing sequence splitting'))
         parser.add_argument(p1+'max-seq-length', dest=(p2+'max_seq_length'), type=int,
-- 
2.43.0


From a3cd065f5a70be3cde3091d7cbf27e697167c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:00 +0000
Subject: [PATCH 162/162] fix: SequencePostReader evaluation arguments include
 num-comp without prefix

---
 hyperion/helpers/sequence_post_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index 8b19aed..af030b1 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -307,9 +307,9 @@ class SequencePostReader(SequenceReader):
             p1 = '--' + prefix + '-'
             p2 = prefix + '_'
 
-            parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
-                                type=int,
-                                help=('number of GMM components'))
+        parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
+                            type=int,
+                            help=('number of GMM components'))
         
 
     
-- 
2.43.0

