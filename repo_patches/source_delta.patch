From 2cfc8d1fbd1f56c66b82064e21c2333e7e80e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 01/62] fix: append to a new chunk when the last one is full

---
 pkg/storage/logfs/locallog.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 7d126c5..d49ee20 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -143,6 +143,11 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 			l.logger.Infof("creating new chunk id=%s for the logID=%s", ci.ID, lid)
 		}
 		arr, err := l.appendRecords(ctx, ci.ID, ci.RecordsCount == 0, recs)
+		if ci.RecordsCount > 0 && errors.Is(err, errors.ErrExhausted) {
+			// the existing chunk is full, so the records should go to a new one
+			ci = ChunkInfo{}
+			continue
+		}
 		if err != nil {
 			gerr = err
 			break
-- 
2.43.0


From f7bc8f8fa6885070c09686868b2ef7455fcd1f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 02/62] fix: store the chunk infos of the written records when
 the append context is closed or the log is deleted

---
 pkg/storage/logfs/locallog.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index d49ee20..1536b48 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -175,9 +175,14 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 	}
 
 	if added > 0 {
-		// use context.Background instead of ctx to avoid some unrecoverable error in case of the ctx is closed, but we have some
+		// use context.WithoutCancel instead of ctx to avoid some unrecoverable error in case of the ctx is closed, but we have some
 		// data written
-		if err := l.LMStorage.UpsertChunkInfos(ctx, lid, cis); err != nil {
+		err := l.LMStorage.UpsertChunkInfos(context.WithoutCancel(ctx), lid, cis)
+		if errors.Is(err, errors.ErrNotExist) {
+			// the log was deleted while the records were written, nobody will need them
+			return nil, fmt.Errorf("the log id=%s is deleted: %w", lid, err)
+		}
+		if err != nil {
 			// well, now it is unrecoverable!
 			l.logger.Errorf("could not write chunk IDs=%v for logID=%s, but the data is written into chunk. The data is corrupted now: %v", cis, lid, err)
 			panic("unrecoverable error, data is corrupted")
-- 
2.43.0


From 72570fbb560826ec866b9110a6b5c9db3bc88136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 03/62] fix: continue a descending records query with the ID
 before the last returned record

---
 pkg/api/service.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index de44642..17f7dcc 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -118,8 +118,12 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 			return nil, errors.GRPCWrap(err)
 		}
 		nextID := ""
-		if more {
-			nextID = ulidutils.NextID(res[len(res)-1].ID)
+		if more && len(res) > 0 {
+			if request.Descending {
+				nextID = ulidutils.PrevID(res[len(res)-1].ID)
+			} else {
+				nextID = ulidutils.NextID(res[len(res)-1].ID)
+			}
 		}
 		return &solaris.QueryRecordsResult{Records: res, NextPageID: nextID}, nil
 	}
-- 
2.43.0


From ab31db7bdef972496e905dec376e7e912bc2555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 04/62] fix: do not allocate the merged result by the limit
 from the request

---
 pkg/api/service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index 17f7dcc..090f918 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -138,7 +138,7 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 
 	lim := request.Limit
 
-	res := make([]*solaris.Record, 0, lim)
+	res := make([]*solaris.Record, 0, max(0, min(lim, maxLogsToMerge)))
 	for mx.HasNext() && lim > 0 {
 		r, ok := mx.Next()
 		if !ok {
-- 
2.43.0


From 75d632451b068598baeb27c6cbbe20752dbcd995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 05/62] fix: report the records counting errors

---
 pkg/api/service.go            | 2 +-
 pkg/storage/logfs/locallog.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index 090f918..38c18f7 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -190,7 +190,7 @@ func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecord
 			Limit:   request.Limit},
 		)
 		if err != nil {
-			return nil, err
+			return nil, errors.GRPCWrap(err)
 		}
 
 		total += t
diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 1536b48..bdf7960 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -378,7 +378,7 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 			if sid.Compare(ulidutils.ZeroULID) != 0 || len(idRanges) > 0 {
 				recCnt, err = l.countRecords(ctx, ci, request.Descending, considerSIDAndDesc(idRanges, sid, request.Descending))
 				if err != nil {
-					return 0, 0, nil
+					return 0, 0, err
 				}
 			}
 			count += recCnt
-- 
2.43.0


From 5b0b59e4e22736c19e6f88d134deaf3c65c61d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:32 +0000
Subject: [PATCH 06/62] fix: refuse records queries which select more logs than
 may be merged

---
 pkg/api/service.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index 38c18f7..f41795c 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -106,6 +106,10 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 		for i, l := range qr.Logs {
 			logIDs[i] = l.ID
 		}
+		if qr.NextPageID != "" {
+			// the storage may return fewer logs than requested
+			return nil, errors.GRPCWrap(fmt.Errorf("could not merge more than %d logs together: %w", maxLogsToMerge, errors.ErrExhausted))
+		}
 	}
 	if len(logIDs) > maxLogsToMerge {
 		return nil, errors.GRPCWrap(fmt.Errorf("could not merge more than %d logs together: %w", maxLogsToMerge, errors.ErrExhausted))
@@ -175,6 +179,10 @@ func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecord
 		for i, l := range qr.Logs {
 			logIDs[i] = l.ID
 		}
+		if qr.NextPageID != "" {
+			// the storage may return fewer logs than requested
+			return nil, errors.GRPCWrap(fmt.Errorf("could not merge more than %d logs together: %w", maxLogsToMerge, errors.ErrExhausted))
+		}
 	}
 	if len(logIDs) > maxLogsToMerge {
 		return nil, errors.GRPCWrap(fmt.Errorf("could not merge more than %d logs together: %w", maxLogsToMerge, errors.ErrExhausted))
-- 
2.43.0


From e813bdc940adfb77ff51c8bba2f92bfc5c925896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 07/62] fix: read and count the records of a log once when its
 ID is repeated in the request

---
 pkg/api/service.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index f41795c..564235b 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -17,6 +17,7 @@ package api
 import (
 	"context"
 	"fmt"
+	"slices"
 
 	"github.com/solarisdb/solaris/api/gen/solaris/v1"
 	context2 "github.com/solarisdb/solaris/golibs/context"
@@ -95,7 +96,7 @@ func (s *Service) AppendRecords(ctx context.Context, request *solaris.AppendReco
 }
 
 func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecordsRequest) (*solaris.QueryRecordsResult, error) {
-	logIDs := request.LogIDs
+	logIDs := uniqueIDs(request.LogIDs)
 	if len(logIDs) == 0 {
 		// requesting maxLogsToMerge+1 to be sure that if we have more than the maximum, will interrupt the procedure
 		qr, err := s.LogsStorage.QueryLogs(ctx, storage.QueryLogsRequest{Condition: request.LogsCondition, Limit: int64(maxLogsToMerge + 1)})
@@ -168,7 +169,7 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 }
 
 func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecordsRequest) (*solaris.CountResult, error) {
-	logIDs := request.LogIDs
+	logIDs := uniqueIDs(request.LogIDs)
 	if len(logIDs) == 0 {
 		// requesting maxLogsToMerge+1 to be sure that if we have more than the maximum, will interrupt the procedure
 		qr, err := s.LogsStorage.QueryLogs(ctx, storage.QueryLogsRequest{Condition: request.LogsCondition, Limit: int64(maxLogsToMerge + 1)})
@@ -210,3 +211,10 @@ func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecord
 		Count: int64(count),
 	}, nil
 }
+
+// uniqueIDs returns the sorted list of ids without duplicates
+func uniqueIDs(ids []string) []string {
+	ids = slices.Clone(ids)
+	slices.Sort(ids)
+	return slices.Compact(ids)
+}
-- 
2.43.0


From bf3cdfdd2104a3e6d6ac2f54ff95e7b929d41f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 08/62] fix: distinguish record conditions which match nothing
 from no condition and negate unions of intervals properly

---
 pkg/ql/intervalbuilder.go     | 33 ++++++++++++++++++---------------
 pkg/storage/logfs/locallog.go | 10 +++-------
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 92c5863..3a53c7a 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -46,17 +46,21 @@ func NewParamIntervalBuilder[T, K any](basis intervals.Basis[T], dialect Dialect
 }
 
 // Build returns a list of intervals built from the AST expression.
-// Returned intervals are sorted by the L border.
+// Returned intervals are sorted by the L border. The nil result means that the expression
+// doesn't constrain the parameter, the empty (not nil) one means that no value satisfies the expression.
 func (ib *ParamIntervalBuilder[T, K]) Build(expr *Expression) ([]intervals.Interval[T], error) {
-	var res []intervals.Interval[T]
+	res := []intervals.Interval[T]{}
+	anyVal := len(expr.Or) == 0
 	for _, or := range expr.Or {
 		tt, err := ib.buildOR(or)
 		if err != nil {
 			return nil, err
 		}
-		if len(tt) > 0 {
-			res = append(res, tt...)
-		}
+		anyVal = anyVal || tt == nil
+		res = append(res, tt...)
+	}
+	if anyVal {
+		return nil, nil
 	}
 	return ib.union(res), nil
 }
@@ -68,7 +72,7 @@ func (ib *ParamIntervalBuilder[T, K]) buildOR(or *OrCondition) ([]intervals.Inte
 		if err != nil {
 			return nil, err
 		}
-		if len(group) > 0 {
+		if group != nil {
 			groups = append(groups, group)
 		}
 	}
@@ -84,22 +88,21 @@ func (ib *ParamIntervalBuilder[T, K]) buildXCond(and *XCondition) ([]intervals.I
 			return nil, err
 		}
 	} else {
-		tt, err := ib.buildCond(and.Cond)
+		var err error
+		res, err = ib.buildCond(and.Cond)
 		if err != nil {
 			return nil, err
 		}
-		if len(tt) > 0 {
-			res = append(res, tt...)
-		}
 	}
-	if !and.Not {
+	if !and.Not || res == nil {
 		return res, nil
 	}
-	var negated []intervals.Interval[T]
+	// the negation of the union is the intersection of the negations
+	negated := [][]intervals.Interval[T]{{ib.basis.Closed(ib.basis.Min, ib.basis.Max)}}
 	for _, t := range res {
-		negated = append(negated, ib.basis.Negate(t)...)
+		negated = append(negated, ib.basis.Negate(t))
 	}
-	return negated, nil
+	return ib.intersect(negated), nil
 }
 
 func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.Interval[T], error) {
@@ -206,7 +209,7 @@ func (ib *ParamIntervalBuilder[T, K]) intersect(groups [][]intervals.Interval[T]
 	prev := groups[0]
 	for i := 1; i < len(groups); i++ {
 		curr := groups[i]
-		var group []intervals.Interval[T]
+		group := []intervals.Interval[T]{}
 		for j := 0; j < len(prev); j++ {
 			for k := 0; k < len(curr); k++ {
 				if t, ok := ib.basis.Intersect(prev[j], curr[k]); ok {
diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index bdf7960..455a6b2 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -276,7 +276,7 @@ func (l *localLog) QueryRecords(ctx context.Context, request storage.QueryRecord
 	if err != nil {
 		return nil, false, err
 	}
-	if len(request.Condition) > 0 && len(tis) == 0 {
+	if tis != nil && len(tis) == 0 {
 		return nil, false, nil
 	}
 
@@ -290,7 +290,7 @@ func (l *localLog) QueryRecords(ctx context.Context, request storage.QueryRecord
 	for idx := fromIdx; idx >= 0 && idx < len(cis) && limit > len(res); idx += inc {
 		ci := cis[idx]
 		idRanges := getRanges(tis, ci)
-		if len(request.Condition) > 0 && len(idRanges) == 0 {
+		if tis != nil && len(idRanges) == 0 {
 			continue
 		}
 		srecs, err := l.readRecords(ctx, lid, ci, request.Descending, considerSIDAndDesc(idRanges, sid, request.Descending), limit-len(res), &totalSize)
@@ -359,10 +359,6 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 	if err != nil {
 		return 0, 0, err
 	}
-	if len(request.Condition) > 0 && len(tis) == 0 {
-		return 0, 0, nil
-	}
-
 	var total uint64
 	var count uint64
 
@@ -371,7 +367,7 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 		total += uint64(ci.RecordsCount)
 		if (request.Descending && idx <= fromIdx) || (!request.Descending && idx >= fromIdx) {
 			idRanges := getRanges(tis, ci)
-			if len(request.Condition) > 0 && len(idRanges) == 0 {
+			if tis != nil && len(idRanges) == 0 {
 				continue
 			}
 			recCnt := uint64(ci.RecordsCount)
-- 
2.43.0


From b4cd8cf7f501c382f3cff99c73725ee344ffb39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 09/62] fix: build intervals for the values which are out of
 the basis

---
 pkg/ql/intervalbuilder.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 3a53c7a..115c179 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -223,6 +223,23 @@ func (ib *ParamIntervalBuilder[T, K]) intersect(groups [][]intervals.Interval[T]
 }
 
 func (ib *ParamIntervalBuilder[T, K]) getIntervals(op string, val T) []intervals.Interval[T] {
+	none := []intervals.Interval[T]{}
+	all := []intervals.Interval[T]{ib.basis.Closed(ib.basis.Min, ib.basis.Max)}
+	cmpMin, cmpMax := ib.basis.CmpF(val, ib.basis.Min), ib.basis.CmpF(val, ib.basis.Max)
+	switch {
+	case cmpMin < 0 || (cmpMin == 0 && op == "<"):
+		// no values of the basis are less than val
+		if op == ">" || op == ">=" || op == "!=" {
+			return all
+		}
+		return none
+	case cmpMax > 0 || (cmpMax == 0 && op == ">"):
+		// no values of the basis are greater than val
+		if op == "<" || op == "<=" || op == "!=" {
+			return all
+		}
+		return none
+	}
 	switch op {
 	case "<":
 		return []intervals.Interval[T]{ib.basis.OpenR(ib.basis.Min, val)}
-- 
2.43.0


From d07435be040509de17f7d5aafd3f1bfb9e9bb7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 10/62] fix: reject the operations which are not applicable to
 the records condition

---
 pkg/ql/intervalbuilder.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 115c179..058eb3b 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -19,6 +19,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/errors"
 	"github.com/solarisdb/solaris/pkg/intervals"
 	"sort"
+	"strings"
 )
 
 // ParamIntervalBuilder allows to build value intervals from the AST expression
@@ -142,9 +143,6 @@ func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.In
 	}
 
 	// operation
-	if !ib.ops[cond.Op] { // skip not the ops we look for
-		return nil, nil
-	}
 	switch cond.Op {
 	case "<", ">":
 		if dp1.Flags&PfComparable == 0 && dp1.Flags&PfGreaterLess == 0 {
@@ -160,6 +158,16 @@ func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.In
 		if dp2.Flags&PfComparable == 0 {
 			return nil, fmt.Errorf("the second parameter %s must be comparable for the operation %s: %w", p2.Name(false), cond.Op, errors.ErrInvalid)
 		}
+	default:
+		if op := strings.ToUpper(cond.Op); op != "IN" && op != "LIKE" {
+			return nil, fmt.Errorf("unknown operation %s: %w", cond.Op, errors.ErrInvalid)
+		}
+		if dp1.Flags&PfInLike == 0 {
+			return nil, fmt.Errorf("the first parameter %s is not applicable for the operation %s: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
+		}
+	}
+	if !ib.ops[cond.Op] { // skip not the ops we look for
+		return nil, nil
 	}
 
 	// value
-- 
2.43.0


From cb1b6d312463738651d50b77b0697401f4e99c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 11/62] fix: check the right side parameter of a condition

---
 pkg/ql/evaluator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ql/evaluator.go b/pkg/ql/evaluator.go
index a71210c..03ed936 100644
--- a/pkg/ql/evaluator.go
+++ b/pkg/ql/evaluator.go
@@ -171,6 +171,9 @@ func (eb *exprBuilder[T]) buildCond(cn *Condition) (err error) {
 	if d2.Flags&PfNop != 0 {
 		return fmt.Errorf("parameter %s cannot be compared (%s) in the condition: %w", p2.Name(false), cn.Op, errors.ErrInvalid)
 	}
+	if err := d2.check(p2); err != nil {
+		return err
+	}
 
 	op := strings.ToUpper(cn.Op)
 	switch op {
-- 
2.43.0


From 6d9ec5dbee8123f41ba23aded733f374137560e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 12/62] fix: reject identifiers used as functions in conditions

---
 pkg/ql/dialect.go         | 14 ++++++++++++--
 pkg/ql/intervalbuilder.go |  3 +++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/ql/dialect.go b/pkg/ql/dialect.go
index 6627c93..92faa53 100644
--- a/pkg/ql/dialect.go
+++ b/pkg/ql/dialect.go
@@ -95,7 +95,8 @@ var (
 			Type: VTStrings,
 		},
 		"logID": {
-			Flags: PfLValue | PfComparable | PfInLike,
+			Flags:  PfLValue | PfComparable | PfInLike,
+			CheckF: checkNotFunction,
 			ValueF: func(p *Param, log *solaris.Log) (any, error) {
 				return log.ID, nil
 			},
@@ -188,7 +189,8 @@ var (
 			Type: VTString,
 		},
 		"ctime": {
-			Flags: PfLValue | PfComparable,
+			Flags:  PfLValue | PfComparable,
+			CheckF: checkNotFunction,
 			ValueF: func(p *Param, r *solaris.Record) (any, error) {
 				if r.CreatedAt != nil {
 					return r.CreatedAt.AsTime(), nil
@@ -207,3 +209,11 @@ func (pd ParamDialect[T]) check(p *Param) error {
 	}
 	return nil
 }
+
+// checkNotFunction returns an error if the parameter p, which must be an identifier, is written as a function
+func checkNotFunction(p *Param) error {
+	if p.Function != nil {
+		return fmt.Errorf("%s is not a function: %w", p.Name(false), errors.ErrInvalid)
+	}
+	return nil
+}
diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 058eb3b..829fdd2 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -119,6 +119,9 @@ func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.In
 	if dp1.Flags&PfNop != 0 {
 		return nil, fmt.Errorf("the parameter %s must allow operation (%s): %w", p1.Name(false), cond.Op, errors.ErrInvalid)
 	}
+	if err := dp1.check(&p1); err != nil {
+		return nil, err
+	}
 	if p1.Name(false) != ib.param { // skip not the param we look for
 		return nil, nil
 	}
-- 
2.43.0


From 8023e25c42ad93562505ab59817b2c2f2f9cf29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 13/62] fix: report a malformed expression as an invalid
 argument

---
 pkg/ql/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index 92be8f9..2870c3b 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"github.com/alecthomas/participle/v2"
 	"github.com/alecthomas/participle/v2/lexer"
+	"github.com/solarisdb/solaris/golibs/errors"
 	"strings"
 )
 
@@ -157,7 +158,7 @@ func Parse(expr string) (*Expression, error) {
 	}
 	e, err := parser.ParseString("", expr)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse expression=%q: %w", expr, err)
+		return nil, fmt.Errorf("failed to parse expression=%q: %v: %w", expr, err, errors.ErrInvalid)
 	}
 	return e, nil
 }
-- 
2.43.0


From 79cbe24afe4355d0a8285162b36d51346d7a24bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:23 +0000
Subject: [PATCH 14/62] fix: consider the sub-millisecond part of the time in
 records conditions

---
 pkg/storage/logfs/locallog.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 455a6b2..dcaf2d7 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -483,22 +483,26 @@ func getRanges(tis []intervals.Interval[time.Time], ci ChunkInfo) []idRange {
 	var ranges []idRange
 	for _, ti := range tis {
 		if ri, ok := tiBasis.Intersect(cti, ti); ok {
-			ranges = append(ranges, toRange(ri))
+			if r := toRange(ri); r.start.Compare(r.end) < 0 {
+				ranges = append(ranges, r)
+			}
 		}
 	}
 	return ranges
 }
 
+// toRange returns the range of the record IDs, whose time (in milliseconds) is within the interval ti. The start of the
+// result is greater than its end if there are no such IDs
 func toRange(ti intervals.Interval[time.Time]) idRange {
-	if ti.IsClosed() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenL() {
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenR() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
-	} else { // open
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
+	l := ti.L.Truncate(time.Millisecond)
+	if !ti.LIn || l.Before(ti.L) {
+		l = l.Add(time.Millisecond)
+	}
+	r := ti.R.Truncate(time.Millisecond)
+	if !ti.RIn && r.Equal(ti.R) {
+		r = r.Add(-time.Millisecond)
 	}
+	return idRange{start: minULIDForTime(l), end: maxULIDForTime(r)}
 }
 
 func minULIDForTime(t time.Time) ulid.ULID {
-- 
2.43.0


From 2478da81ab37b79c290455d40755ac720e8fa842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 15/62] fix: reject a malformed records condition for an empty
 log too

---
 pkg/storage/logfs/locallog.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index dcaf2d7..d3c7e93 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -238,6 +238,11 @@ func (l *localLog) QueryRecords(ctx context.Context, request storage.QueryRecord
 	}
 	defer l.lockers.Release(&ll)
 
+	tis, err := getIntervals(request.Condition)
+	if err != nil {
+		return nil, false, err
+	}
+
 	cis, err := l.LMStorage.GetChunks(ctx, lid)
 	if err != nil {
 		return nil, false, err
@@ -272,10 +277,6 @@ func (l *localLog) QueryRecords(ctx context.Context, request storage.QueryRecord
 		}
 	}
 
-	tis, err := getIntervals(request.Condition)
-	if err != nil {
-		return nil, false, err
-	}
 	if tis != nil && len(tis) == 0 {
 		return nil, false, nil
 	}
@@ -319,6 +320,11 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 	}
 	defer l.lockers.Release(&ll)
 
+	tis, err := getIntervals(request.Condition)
+	if err != nil {
+		return 0, 0, err
+	}
+
 	cis, err := l.LMStorage.GetChunks(ctx, lid)
 	if err != nil {
 		return 0, 0, err
@@ -355,10 +361,6 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 		}
 	}
 
-	tis, err := getIntervals(request.Condition)
-	if err != nil {
-		return 0, 0, err
-	}
 	var total uint64
 	var count uint64
 
-- 
2.43.0


From 31beaee6fee81fd0967c38b6ef82d17b41c8fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 16/62] fix: do not fail on a negative limit of the logs query

---
 pkg/storage/buntdb/buntdb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 1038772..8f164d6 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -288,7 +288,7 @@ func (s *Storage) deleteLogsByCondition(ctx context.Context, req storage.DeleteL
 
 func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
 	limit := min(int(qr.Limit), 1000)
-	if qr.Limit == 0 {
+	if qr.Limit <= 0 {
 		limit = 50
 	}
 
@@ -350,7 +350,7 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 	}
 
 	limit := min(int(qr.Limit), 1000)
-	if qr.Limit == 0 {
+	if qr.Limit <= 0 {
 		limit = 50
 	}
 
-- 
2.43.0


From 546bcd91c09e371d90e4579bb6039d1d36429c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 17/62] fix: do not report unknown logs as deleted

---
 pkg/storage/buntdb/buntdb.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 8f164d6..d0efdfc 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -210,7 +210,11 @@ func (s *Storage) deleteLogsByIDs(ctx context.Context, req storage.DeleteLogsReq
 				return nil, fmt.Errorf("markLogDeleted(ID=%s) failed: %w", id, err)
 			}
 		} else {
-			if err := s.deleteLog(ctx, tx, id); err != nil && !errors.Is(err, errors.ErrNotExist) {
+			err := s.deleteLog(ctx, tx, id)
+			if errors.Is(err, errors.ErrNotExist) {
+				continue
+			}
+			if err != nil {
 				return nil, fmt.Errorf("deleteLog(ID=%s) failed: %w", id, err)
 			}
 		}
-- 
2.43.0


From cae58272a08e34596b8be5ef0f37b828564c617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 18/62] fix: report the same total for every page of the logs
 query

---
 pkg/storage/buntdb/buntdb.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index d0efdfc..750b3f5 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -299,22 +299,13 @@ func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsReques
 	logIDs := slices.Clone(qr.IDs)
 	slices.Sort(logIDs)
 
-	startIdx, _ := slices.BinarySearch(logIDs, qr.Page)
-	if startIdx == len(logIDs) {
-		return &solaris.QueryLogsResult{
-			Logs:       nil,
-			NextPageID: "",
-			Total:      int64(len(logIDs)),
-		}, nil
-	}
-
 	tx := mustBeginTx(s.db, false)
 	defer mustRollback(tx)
 
 	var total int64
 	var qLogs []*solaris.Log
 
-	for _, id := range logIDs[startIdx:] {
+	for _, id := range slices.Compact(logIDs) {
 		if ctx.Err() != nil {
 			return nil, fmt.Errorf("context error: %w", ctx.Err())
 		}
@@ -326,7 +317,7 @@ func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsReques
 			return nil, err
 		}
 		total++
-		if len(qLogs) <= limit { // = for pagination
+		if id >= qr.Page && len(qLogs) <= limit { // = for pagination
 			qLogs = append(qLogs, le.Log)
 		}
 	}
@@ -373,7 +364,7 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 		}
 		if tstF(le.Log) {
 			total++
-			if len(qLogs) <= limit { // = for pagination
+			if le.ID >= qr.Page && len(qLogs) <= limit { // = for pagination
 				qLogs = append(qLogs, le.Log)
 			}
 		}
@@ -383,7 +374,7 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 	tx := mustBeginTx(s.db, false)
 	defer mustRollback(tx)
 
-	if err = tx.AscendRange("", logKey(qr.Page), logKey(ulidutils.MaxULID.String()), iter); err != nil {
+	if err = tx.AscendRange("", logKey(""), logKey(ulidutils.MaxULID.String()), iter); err != nil {
 		return nil, fmt.Errorf("iteration failed: %w", err)
 	}
 	if iterErr != nil {
-- 
2.43.0


From 0586affa6ae426bb29109bad75c67eb78a81a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 19/62] fix: do not release the access to a chunk file which is
 not acquired

---
 pkg/storage/chunkfs/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/chunkfs/provider.go b/pkg/storage/chunkfs/provider.go
index a884117..0877c73 100644
--- a/pkg/storage/chunkfs/provider.go
+++ b/pkg/storage/chunkfs/provider.go
@@ -78,6 +78,7 @@ func (p *Provider) DeleteFileIfEmpty(cID string) {
 	}
 	if !p.CA.setDeleting(cID) {
 		p.logger.Errorf("DeleteFileIfEmpty(): something goes wrong, cannot mark chunk %s for deleting", cID)
+		return
 	}
 	defer p.CA.SetIdle(cID)
 	fn := p.GetFileNameByID(cID)
-- 
2.43.0


From bd614543e6613f74e31304b1dd6fae417fec7fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 20/62] fix: give up the access to a chunk file only when it is
 closed

---
 pkg/storage/chunkfs/provider.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/storage/chunkfs/provider.go b/pkg/storage/chunkfs/provider.go
index 0877c73..ffcee94 100644
--- a/pkg/storage/chunkfs/provider.go
+++ b/pkg/storage/chunkfs/provider.go
@@ -151,12 +151,12 @@ func (p *Provider) downloadFileIfNotExists(ctx context.Context, cID, fn string)
 }
 
 func (p *Provider) closeChunk(cID string, c *Chunk) {
-	if err := p.CA.closeChunk(cID); err != nil {
-		p.logger.Errorf("something goes wrong. closeChunk(%s) reported the error: %s", cID, err)
-	}
 	if err := c.Close(); err != nil {
 		p.logger.Warnf("could not close chunk c=%v", c)
 	}
+	if err := p.CA.closeChunk(cID); err != nil {
+		p.logger.Errorf("something goes wrong. closeChunk(%s) reported the error: %s", cID, err)
+	}
 }
 
 func (p *Provider) getPathByID(id string) string {
-- 
2.43.0


From 746f9fc03e0e13fdbda05e8fbce6111c45c2b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 21/62] fix: select and delete logs by a condition atomically

---
 pkg/storage/buntdb/buntdb.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 750b3f5..992a59a 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -200,6 +200,10 @@ func (s *Storage) deleteLogsByIDs(ctx context.Context, req storage.DeleteLogsReq
 	tx := mustBeginTx(s.db, true)
 	defer mustRollback(tx)
 
+	return s.deleteLogsByIDsTx(ctx, tx, req)
+}
+
+func (s *Storage) deleteLogsByIDsTx(ctx context.Context, tx *buntdb.Tx, req storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
 	var deletedIDs []string
 	for _, id := range slices.Clone(req.IDs) {
 		if ctx.Err() != nil {
@@ -272,22 +276,26 @@ func (s *Storage) markLogDeleted(tx *buntdb.Tx, logID string) error {
 }
 
 func (s *Storage) deleteLogsByCondition(ctx context.Context, req storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
+	// the logs must be selected and deleted in one transaction, otherwise they could be changed in between
+	tx := mustBeginTx(s.db, true)
+	defer mustRollback(tx)
+
 	var logIDs []string
-	qRes, err := s.queryLogsByCondition(ctx, storage.QueryLogsRequest{Condition: req.Condition, Limit: 1000}, req.MarkOnly)
+	qRes, err := s.queryLogsByConditionTx(ctx, tx, storage.QueryLogsRequest{Condition: req.Condition, Limit: 1000}, req.MarkOnly)
 	for err == nil && len(qRes.Logs) > 0 {
 		for _, log := range qRes.Logs {
 			logIDs = append(logIDs, log.ID)
 		}
 		qRes.Logs = nil
 		if len(qRes.NextPageID) > 0 {
-			qRes, err = s.queryLogsByCondition(ctx, storage.QueryLogsRequest{Condition: req.Condition,
+			qRes, err = s.queryLogsByConditionTx(ctx, tx, storage.QueryLogsRequest{Condition: req.Condition,
 				Page: qRes.NextPageID, Limit: 1000}, req.MarkOnly)
 		}
 	}
 	if err != nil {
 		return nil, err
 	}
-	return s.deleteLogsByIDs(ctx, storage.DeleteLogsRequest{IDs: logIDs, MarkOnly: req.MarkOnly})
+	return s.deleteLogsByIDsTx(ctx, tx, storage.DeleteLogsRequest{IDs: logIDs, MarkOnly: req.MarkOnly})
 }
 
 func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
@@ -335,6 +343,13 @@ func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsReques
 }
 
 func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
+	tx := mustBeginTx(s.db, false)
+	defer mustRollback(tx)
+
+	return s.queryLogsByConditionTx(ctx, tx, qr, skipMarkedDeleted)
+}
+
+func (s *Storage) queryLogsByConditionTx(ctx context.Context, tx *buntdb.Tx, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
 	expr, err := ql.Parse(qr.Condition)
 	if err != nil {
 		return nil, fmt.Errorf("condition=%q parse error=%v: %w", qr.Condition, err, errors.ErrInvalid)
@@ -371,9 +386,6 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 		return true
 	}
 
-	tx := mustBeginTx(s.db, false)
-	defer mustRollback(tx)
-
 	if err = tx.AscendRange("", logKey(""), logKey(ulidutils.MaxULID.String()), iter); err != nil {
 		return nil, fmt.Errorf("iteration failed: %w", err)
 	}
-- 
2.43.0


From 1752014d1471c1b24ca3b0666194170f4b938d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 22/62] fix: do not lose the fraction of a second in the
 'YYYY-MM-DD HH:mm:ss.SSS' time

---
 pkg/ql/datetime.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ql/datetime.go b/pkg/ql/datetime.go
index dc4c636..17b1278 100644
--- a/pkg/ql/datetime.go
+++ b/pkg/ql/datetime.go
@@ -78,6 +78,7 @@ var dateTimeParser = datetime.NewParser([]string{
 	// yyyy-mm-dd hh:mm:ss
 	"YYYY-MM-DD HH:mm:ss.SSS ZZZZ ZZZ",
 	"YYYY-MM-DD HH:mm:ss.SSS ZZZZ",
+	"YYYY-MM-DD HH:mm:ss.SSS",
 	"YYYY-MM-DD HH:mm:ss ZZZZZ",
 	"YYYY-MM-DD HH:mm:ssZZZZZ",
 	"YYYY-MM-DD HH:mm:ss ZZZZ ZZZ",
-- 
2.43.0


From 95315a9da205672b45723d627ebe902117cde19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 23/62] fix: reject the time values which are not a known
 format completely

---
 golibs/datetime/date.go | 14 ++++++++++++++
 pkg/ql/datetime.go      |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/golibs/datetime/date.go b/golibs/datetime/date.go
index 05fd84f..207bbc0 100644
--- a/golibs/datetime/date.go
+++ b/golibs/datetime/date.go
@@ -238,6 +238,20 @@ func (p *parser) Parse(buf []byte) (time.Time, *Format) {
 	return time.Time{}, nil
 }
 
+// ParseFull acts like Parse, but it considers the formats which describe the buf from its beginning to its end only
+func (p *parser) ParseFull(buf []byte) (time.Time, *Format) {
+	for _, dFmt := range p.formats {
+		if m := dFmt.dRegexp.Find(buf); m == nil || len(m) != len(buf) {
+			continue
+		}
+		tm, err := dFmt.Parse(buf)
+		if err == nil {
+			return tm, dFmt
+		}
+	}
+	return time.Time{}, nil
+}
+
 // dateMap transforms human readable format (YYYY/MM/DD)
 // to go-lang layout representation (2006/01/02), see terms table above
 func dateMap(format string) string {
diff --git a/pkg/ql/datetime.go b/pkg/ql/datetime.go
index 17b1278..00a3f8f 100644
--- a/pkg/ql/datetime.go
+++ b/pkg/ql/datetime.go
@@ -147,7 +147,7 @@ func parseDateTime(dt0 string) (time.Time, error) {
 		return tm, nil
 	}
 
-	tm, fm := dateTimeParser.Parse(cast.StringToByteArray(dt0))
+	tm, fm := dateTimeParser.ParseFull(cast.StringToByteArray(strings.Trim(dt0, " ")))
 	if fm != nil {
 		return tm, nil
 	}
-- 
2.43.0


From a467bd735e0faf3d436b93b224f7113e36536f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 24/62] fix: accept the times with any 4-digit year

---
 golibs/datetime/date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/datetime/date.go b/golibs/datetime/date.go
index 207bbc0..a89c183 100644
--- a/golibs/datetime/date.go
+++ b/golibs/datetime/date.go
@@ -144,7 +144,7 @@ var (
 	// we're going to do the replacements in the given order,
 	// so we want the 'larger' terms to be replaced first...
 	terms = []term{
-		{"YYYY", "2006", "[1-2]\\d{3}"},
+		{"YYYY", "2006", "\\d{4}"},
 		{"YY", "06", "\\d{2}"},
 		{"MMMM", "January", "[A-Z][a-z]{2,8}"},
 		{"MMM", "Jan", "[A-Z][a-z]{2}"},
-- 
2.43.0


From df0ae0bbcd1f0e644cf23fde79ee2b19d4b1960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 25/62] fix: make the new IDs always greater than the ones made
 before

---
 golibs/ulidutils/ulidutils.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/golibs/ulidutils/ulidutils.go b/golibs/ulidutils/ulidutils.go
index 0b7664f..fc6f5fd 100644
--- a/golibs/ulidutils/ulidutils.go
+++ b/golibs/ulidutils/ulidutils.go
@@ -16,6 +16,7 @@ package ulidutils
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/google/uuid"
 	"github.com/oklog/ulid/v2"
@@ -26,9 +27,25 @@ var (
 	MaxULID, _ = ulid.Parse("7ZZZZZZZZZZZZZZZZZZZZZZZZZ")
 )
 
-// New returns new ulid.ULID.
+var (
+	lock   sync.Mutex
+	lastID ulid.ULID
+)
+
+// New returns new ulid.ULID, which is always greater than any other returned by the function before. It cannot be just
+// ulid.Make(), because the latter reads the time before it acquires its lock, so an ID may be less than
+// the one which was already returned to the same caller, if another goroutine makes an ID in between.
 func New() ulid.ULID {
-	return ulid.Make()
+	lock.Lock()
+	defer lock.Unlock()
+
+	id := ulid.Make()
+	if id.Compare(lastID) <= 0 {
+		// the time goes back
+		id = nextULID(lastID)
+	}
+	lastID = id
+	return id
 }
 
 // NewUUID returns new ulid.ULID converted to uuid.UUID.
@@ -52,13 +69,18 @@ func NextID(ulidID string) string {
 	if err != nil {
 		panic(fmt.Sprintf("could not parse ULID=%q: %v", ulidID, err))
 	}
+	return nextULID(uID).String()
+}
+
+// nextULID returns the value which follows the uID
+func nextULID(uID ulid.ULID) ulid.ULID {
 	for i := 15; i >= 0; i-- {
 		uID[i] += 1
 		if uID[i] != 0 {
 			break
 		}
 	}
-	return uID.String()
+	return uID
 }
 
 func PrevID(ulidID string) string {
-- 
2.43.0


From 691d9753c9231d276982833f8f2f900c36a0a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 26/62] fix: ReleasableCache must not delete an object whose
 creation failed

---
 golibs/container/lru/releasable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/container/lru/releasable.go b/golibs/container/lru/releasable.go
index 6a45242..63e3f22 100644
--- a/golibs/container/lru/releasable.go
+++ b/golibs/container/lru/releasable.go
@@ -132,7 +132,7 @@ func (r *ReleasableCache[K, V]) GetOrCreate(ctx context.Context, k K) (Releasabl
 		r.lock.Lock()
 		// if it was closed while we were creating the new object...
 		if r.closed {
-			if r.onDeleteF != nil {
+			if err == nil && r.onDeleteF != nil {
 				r.onDeleteF(k, v)
 			}
 			r.lock.Unlock()
-- 
2.43.0


From d674d9ac83c610173f7994c8799b99f92ae2462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:18 +0000
Subject: [PATCH 27/62] fix: ReleasableCache must wake up waiters when a
 creation fails

---
 golibs/container/lru/releasable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golibs/container/lru/releasable.go b/golibs/container/lru/releasable.go
index 63e3f22..d86efca 100644
--- a/golibs/container/lru/releasable.go
+++ b/golibs/container/lru/releasable.go
@@ -145,6 +145,10 @@ func (r *ReleasableCache[K, V]) GetOrCreate(ctx context.Context, k K) (Releasabl
 		if err == nil {
 			rh = &rHolder[V]{refCounter: 1, value: v}
 			r.allKnown[k] = rh
+		} else if r.waiter != nil {
+			// the place of the object, which is not created, is available for the others now
+			close(r.waiter)
+			r.waiter = nil
 		}
 		r.lock.Unlock()
 
-- 
2.43.0


From 5cdf7ae4de8359c30ed6a2a3fe42d1335b661289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:17 +0000
Subject: [PATCH 28/62] fix: keep the local chunk file if it could not be
 copied to the remote storage

---
 pkg/storage/chunkfs/replicator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index a2c5097..34c605e 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -108,8 +108,9 @@ func (r *Replicator) DeleteChunk(ctx context.Context, cID string, flags int) err
 	var resErr error
 	if flags&RFRemoteSync != 0 {
 		if err := r.zipAndUploadChunk(ctx, cID); err != nil {
+			// the local file is the only good copy, so it must stay
 			r.logger.Warnf("error while syncing chunk cID=%s, flags=%d to remote: %s", cID, flags, err)
-			resErr = err
+			return err
 		}
 	}
 
-- 
2.43.0


From 1f2aa4173d2e1cab86aa291ae1836480a3ac0d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:01 +0000
Subject: [PATCH 29/62] fix: a failed download must not leave a partial chunk
 file

---
 pkg/storage/chunkfs/replicator.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index 34c605e..66bcd91 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -218,12 +218,19 @@ func (r *Replicator) unzip(zfn, fn string) error {
 	}
 	defer it.Close()
 
-	_ = os.Remove(fn)
-	f, err := os.Create(fn)
+	// the chunk file must be either the complete copy or what it was before, so write the data into a temporary file first
+	tfn := fn + ".tmp"
+	defer os.Remove(tfn)
+	f, err := os.Create(tfn)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = io.Copy(f, it)
-	return err
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(tfn, fn)
 }
-- 
2.43.0


From 743a4e40f3b1810399a32a0d1894adba48857a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 30/62] fix: an archive that could not be written completely
 must not be uploaded

---
 pkg/storage/chunkfs/replicator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index 66bcd91..a32ada3 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -156,12 +156,17 @@ func (r *Replicator) zipAndUploadChunk(ctx context.Context, cID string) error {
 	return r.Storage.Put(ctx, getStorageKey(cID), zf)
 }
 
-func zipFile(cID, fn, zfn string) error {
+func zipFile(cID, fn, zfn string) (err error) {
 	zw, err := files.NewZipWriter(zfn)
 	if err != nil {
 		return err
 	}
-	defer zw.Close()
+	defer func() {
+		// the archive is completed by Close(), it is not usable if the Close() fails
+		if cerr := zw.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	// the chunk file
 	f, err := os.Open(fn)
-- 
2.43.0


From 002e88254e95772d5521a6828a25e12b2c9d17ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:37 +0000
Subject: [PATCH 31/62] fix: the chunk must not be lost if the process dies
 while its file is being extended

---
 pkg/storage/chunkfs/chunk.go | 62 ++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index 2780015..f065749 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -97,6 +97,12 @@ const (
 	cHeaderSize   = 32
 	// cMetaRecordSize is the size of one meta-record
 	cMetaRecordSize = 24
+
+	// cMoveFromOffset is the offset in the header of the file size (8 bytes), which the chunk had before the meta-records
+	// were started being moved to the end of the extended file. It is 0 if no move is in progress
+	cMoveFromOffset = 12
+	// cMovedOffset is the offset in the header of the number of bytes (8 bytes) moved so far
+	cMovedOffset = 20
 )
 
 var hdrVersion = []byte{'S', 'O', 'L', 'A', 'R', 'I', 'S', 1}
@@ -193,6 +199,9 @@ func (c *Chunk) init(fullCheck bool) error {
 	if c.total < 0 {
 		return fmt.Errorf("the chunk is corrupted, wrong total=%d: %w", c.total, errCorrupted)
 	}
+	if err := c.moveMeta(); err != nil {
+		return err
+	}
 	c.freeOffset = cHeaderSize
 	if c.total > 0 {
 		mb, err := c.getMetaBuf(int(c.total)-1, 1)
@@ -355,31 +364,50 @@ func (c *Chunk) growForWrite(size int64) error {
 		newSize = c.cfg.MaxChunkSize
 	}
 
-	oldSize := c.mmf.Size()
-	if err := c.mmf.Grow(newSize); err != nil {
-		return err
-	}
-
 	if c.total == 0 {
 		// empty Chunk
-		return nil
+		return c.mmf.Grow(newSize)
 	}
 
-	// now, move meta to the end of the new Chunk
-	mSize := int(c.total * cMetaRecordSize)
-	mOffset := oldSize - int64(mSize)
-	oldMBuf, err := c.mmf.Buffer(mOffset, mSize)
+	// the meta must be moved to the end of the new Chunk. Let the header know about that first, so the move will be completed
+	// by the next Open() if it is interrupted
+	hdr, err := c.mmf.Buffer(0, cHeaderSize)
 	if err != nil {
-		c.logger.Errorf("could not map meta-buffer with offset %d for size=%d: %v", mOffset, mSize, err)
-		return fmt.Errorf("could not Grow Chunk: %w", fmt.Errorf("could not map meta-buffer with offset %d for size=%d: %w", mOffset, mSize, errors.ErrInternal))
+		return fmt.Errorf("could not Grow Chunk: %w", err)
 	}
-	newMBuf, err := c.mmf.Buffer(c.mmf.Size()-int64(mSize), mSize)
-	if err != nil {
-		c.logger.Errorf("could not map meta-buffer with offset %d for size=%d: %v", mOffset, mSize, err)
-		return fmt.Errorf("could not Grow Chunk: %w", fmt.Errorf("could not map meta-buffer with offset %d for size=%d: %w", mOffset, mSize, errors.ErrInternal))
+	binary.BigEndian.PutUint64(hdr[cMovedOffset:], 0)
+	binary.BigEndian.PutUint64(hdr[cMoveFromOffset:], uint64(c.mmf.Size()))
+	if err := c.mmf.Grow(newSize); err != nil {
+		return err
 	}
-	copy(newMBuf, oldMBuf)
+	return c.moveMeta()
+}
 
+// moveMeta moves the meta-records to the end of the file, if the file was extended, but the move is not completed yet
+func (c *Chunk) moveMeta() error {
+	size := c.mmf.Size()
+	buf, err := c.mmf.Buffer(0, int(size))
+	if err != nil {
+		return fmt.Errorf("could not move the meta-records: %w", err)
+	}
+	from := int64(binary.BigEndian.Uint64(buf[cMoveFromOffset:]))
+	if from == 0 {
+		return nil
+	}
+	mSize := int64(c.total) * cMetaRecordSize
+	moved := int64(binary.BigEndian.Uint64(buf[cMovedOffset:]))
+	if from > size || from < cHeaderSize+mSize || moved < 0 || moved > mSize {
+		return fmt.Errorf("the chunk is corrupted, wrong moving size=%d, moved=%d: %w", from, moved, errCorrupted)
+	}
+	// every piece is not bigger than the shift, so a piece never overwrites itself and may be copied again
+	shift := size - from
+	for shift > 0 && moved < mSize {
+		n := min(shift, mSize-moved)
+		copy(buf[size-moved-n:size-moved], buf[from-moved-n:from-moved])
+		moved += n
+		binary.BigEndian.PutUint64(buf[cMovedOffset:], uint64(moved))
+	}
+	binary.BigEndian.PutUint64(buf[cMoveFromOffset:], 0)
 	return nil
 }
 
-- 
2.43.0


From 6cfb641bc2ba775571f4db64e32c5303f119a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:24 +0000
Subject: [PATCH 32/62] fix: a corrupted chunk file must not be removed if
 there is no remote copy

---
 pkg/storage/chunkfs/provider.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/storage/chunkfs/provider.go b/pkg/storage/chunkfs/provider.go
index ffcee94..c27259f 100644
--- a/pkg/storage/chunkfs/provider.go
+++ b/pkg/storage/chunkfs/provider.go
@@ -122,9 +122,8 @@ func (p *Provider) openChunk(ctx context.Context, cID string) (*Chunk, error) {
 	err = c.Open(false)
 	if errors.Is(err, errCorrupted) && !downloaded {
 		p.logger.Warnf("tried to open the chunk=%v, but got the corrupted error, will sync the file from remote and try again: %v", c, err)
-		_ = os.Remove(c.fn)
-		_, err = p.downloadFileIfNotExists(ctx, cID, fn)
-		if err == nil {
+		// the file will be replaced only if there is a remote copy
+		if derr := p.Replicator.DownloadChunk(ctx, cID, RFRemoteSync); derr == nil {
 			err = c.Open(false)
 		}
 	}
-- 
2.43.0


From e7b7b343f5099dc2bad23cb012085f1282c84d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:37 +0000
Subject: [PATCH 33/62] fix: records of an interrupted append must not become
 visible and be counted inconsistently

---
 pkg/storage/chunkfs/chunk.go  | 59 ++++++++++++++++++++++++++++++-----
 pkg/storage/logfs/locallog.go | 20 +++++++++---
 2 files changed, 66 insertions(+), 13 deletions(-)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index f065749..f61a933 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -49,10 +49,11 @@ type (
 	// implements interable.Iterator interface. When a ChunkReader is opened, the Write operations to the chunk are blocked,
 	// so the records must be read ASAP and the ChunkReader must be closed.
 	ChunkReader struct {
-		c   *Chunk
-		inc int
-		idx int
-		mb  metaBuf
+		c     *Chunk
+		inc   int
+		idx   int
+		total int
+		mb    metaBuf
 	}
 
 	// UnsafeRecord represent a chunk record. This is a short-life object which may be used ONLY when ChunkReader is open.
@@ -431,6 +432,7 @@ func (c *Chunk) OpenChunkReader(descending bool) (*ChunkReader, error) {
 	cr := new(ChunkReader)
 	cr.c = c
 	cr.inc = 1
+	cr.total = c.total
 	cr.mb = mb
 
 	if descending {
@@ -440,6 +442,38 @@ func (c *Chunk) OpenChunkReader(descending bool) (*ChunkReader, error) {
 	return cr, nil
 }
 
+// Truncate drops the records with the indexes total and above. Nothing happens if the chunk has total records or fewer.
+func (c *Chunk) Truncate(total int) error {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	if c.mmf == nil {
+		// chunk is closed
+		return fmt.Errorf("the chunk %s is closed: %w ", c.fn, errors.ErrClosed)
+	}
+	if total < 0 || total >= c.total {
+		return nil
+	}
+	freeOffset := cHeaderSize
+	if total > 0 {
+		mb, err := c.getMetaBuf(total-1, 1)
+		if err != nil {
+			return err
+		}
+		mr := mb.get(0)
+		freeOffset = int(mr.offset + mr.size)
+	}
+	hdr, err := c.mmf.Buffer(int64(len(hdrVersion)), 4)
+	if err != nil {
+		return fmt.Errorf("could not map records counter buffer: %w", err)
+	}
+	c.logger.Warnf("truncating the records number from %d to %d", c.total, total)
+	binary.BigEndian.PutUint32(hdr, uint32(total))
+	c.total = total
+	c.freeOffset = freeOffset
+	return nil
+}
+
 func (c *Chunk) available() int64 {
 	return c.mmf.Size() - int64(c.freeOffset+c.total*cMetaRecordSize)
 }
@@ -460,7 +494,7 @@ func (c *Chunk) writable(recs []*solaris.Record) (int, int) {
 }
 
 func (cr *ChunkReader) HasNext() bool {
-	return cr.idx < cr.c.total && cr.idx > -1
+	return cr.idx < cr.total && cr.idx > -1
 }
 
 func (cr *ChunkReader) Next() (UnsafeRecord, bool) {
@@ -485,21 +519,30 @@ func (cr *ChunkReader) Close() error {
 	return nil
 }
 
+// SetTotal makes the reader to disregard the records with the indexes total and above. It must be called before the
+// reading is started.
+func (cr *ChunkReader) SetTotal(total int) {
+	cr.total = min(cr.total, total)
+	if cr.inc == -1 {
+		cr.idx = cr.total - 1
+	}
+}
+
 // SetStartID moves the iterator offset to the position startID. The function returns the number of records
 // which will be available for read after the call taking into account the direction of the iterator.
 func (cr *ChunkReader) SetStartID(startID ulid.ULID) int {
 	res := 0
 	if cr.inc == -1 {
-		cr.idx = sort.Search(cr.c.total, func(i int) bool {
+		cr.idx = sort.Search(cr.total, func(i int) bool {
 			return cr.mb.get(i).ID.Compare(startID) > 0
 		})
 		cr.idx--
 		res = cr.idx + 1
 	} else {
-		cr.idx = sort.Search(cr.c.total, func(i int) bool {
+		cr.idx = sort.Search(cr.total, func(i int) bool {
 			return cr.mb.get(i).ID.Compare(startID) >= 0
 		})
-		res = cr.c.total - cr.idx
+		res = cr.total - cr.idx
 	}
 	return res
 }
diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index d3c7e93..13263ab 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -142,7 +142,7 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 			ci = ChunkInfo{ID: ulidutils.NewID()}
 			l.logger.Infof("creating new chunk id=%s for the logID=%s", ci.ID, lid)
 		}
-		arr, err := l.appendRecords(ctx, ci.ID, ci.RecordsCount == 0, recs)
+		arr, err := l.appendRecords(ctx, ci, recs)
 		if ci.RecordsCount > 0 && errors.Is(err, errors.ErrExhausted) {
 			// the existing chunk is full, so the records should go to a new one
 			ci = ChunkInfo{}
@@ -205,18 +205,24 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 	return response, gerr
 }
 
-func (l *localLog) appendRecords(ctx context.Context, cID string, newFile bool, recs []*solaris.Record) (chunkfs.AppendRecordsResult, error) {
-	rc, err := l.ChnkProvider.GetOpenedChunk(ctx, cID, newFile)
+func (l *localLog) appendRecords(ctx context.Context, ci ChunkInfo, recs []*solaris.Record) (chunkfs.AppendRecordsResult, error) {
+	rc, err := l.ChnkProvider.GetOpenedChunk(ctx, ci.ID, ci.RecordsCount == 0)
 	if err != nil {
 		return chunkfs.AppendRecordsResult{}, err
 	}
 	defer l.ChnkProvider.ReleaseChunk(&rc)
 
 	// request write access to the chunk
-	if err := l.ChnkProvider.CA.SetWriting(ctx, cID); err != nil {
+	if err := l.ChnkProvider.CA.SetWriting(ctx, ci.ID); err != nil {
+		return chunkfs.AppendRecordsResult{}, err
+	}
+	defer l.ChnkProvider.CA.SetIdle(ci.ID)
+
+	// the chunk may contain records, which are not in the catalogue, if an append was interrupted. Nobody has seen
+	// them, so drop them to not mix them with the new ones
+	if err := rc.Value().Truncate(ci.RecordsCount); err != nil {
 		return chunkfs.AppendRecordsResult{}, err
 	}
-	defer l.ChnkProvider.CA.SetIdle(cID)
 
 	return rc.Value().AppendRecords(recs)
 }
@@ -406,6 +412,8 @@ func (l *localLog) readRecords(
 		return nil, err
 	}
 	defer cr.Close()
+	// only the records from the catalogue are available
+	cr.SetTotal(ci.RecordsCount)
 
 	var res []*solaris.Record
 	for _, ir := range idRanges {
@@ -447,6 +455,8 @@ func (l *localLog) countRecords(ctx context.Context,
 		return 0, err
 	}
 	defer cr.Close()
+	// only the records from the catalogue are available
+	cr.SetTotal(ci.RecordsCount)
 
 	var count uint64
 	for _, ir := range idRanges {
-- 
2.43.0


From 5edf00b40c21c9058897a9b739005bdb81f5177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 34/62] fix: a mapped file must stay available if it could not
 be extended

---
 golibs/files/mmfile.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/golibs/files/mmfile.go b/golibs/files/mmfile.go
index 570d0da..27e4ff0 100644
--- a/golibs/files/mmfile.go
+++ b/golibs/files/mmfile.go
@@ -130,19 +130,27 @@ func (mmf *MMFile) Grow(newSize int64) (err error) {
 	mmf.unmap()
 
 	if err = mmf.f.Truncate(newSize); err != nil {
-		mmf.Close()
+		mmf.remap()
 		return fmt.Errorf("could not extend file size to %d: %w", newSize, err)
 	}
 
 	mmf.mf, err = mmap.MapRegion(mmf.f, int(newSize), mmap.RDWR, 0, 0)
 	if err != nil {
-		mmf.Close()
+		mmf.remap()
 		return err
 	}
 	mmf.size = newSize
 	return
 }
 
+// remap maps the region of the known size again, so the file stays available if it could not be extended
+func (mmf *MMFile) remap() {
+	var err error
+	if mmf.mf, err = mmap.MapRegion(mmf.f, int(mmf.size), mmap.RDWR, 0, 0); err != nil {
+		mmf.Close()
+	}
+}
+
 // Flush allows to sync the mapped file to the disk. The operation can be long, so should be called often
 func (mmf *MMFile) Flush() error {
 	if mmf.f == nil {
-- 
2.43.0


From 5f1a59c204934be0cc46586ec1495f4d606bc9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 35/62] fix: a condition with several operations in a row must
 be rejected

---
 pkg/ql/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index 2870c3b..2dcbbc7 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -44,8 +44,8 @@ type (
 	// optional operation and second param
 	Condition struct {
 		FirstParam  Param  `  @@`
-		Op          string ` {@("<"|">"|">="|"<="|"!="|"="|"IN"|"LIKE")`
-		SecondParam *Param ` @@}`
+		Op          string ` [@("<"|">"|">="|"<="|"!="|"="|"IN"|"LIKE")`
+		SecondParam *Param ` @@]`
 	}
 
 	// Param describes a parameter either a constant (string or number), function, identifier or an array of constants
-- 
2.43.0


From 78e053593910849e3d98ace3e5d898d5b7968a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 36/62] fix: too many nested parentheses in an expression
 crashed the server

---
 pkg/ql/parser.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index 2dcbbc7..ecc65e4 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -90,6 +90,9 @@ const (
 	StringParamID = "__string__"
 	NumberParamID = "__number__"
 	ArrayParamID  = "__array__"
+
+	// maxNesting limits the number of nested parentheses in an expression, every level needs some stack
+	maxNesting = 1000
 )
 
 // ID returns the param id by its type:
@@ -156,9 +159,34 @@ func Parse(expr string) (*Expression, error) {
 	if len(expr) == 0 {
 		return &Expression{}, nil
 	}
+	if nesting(expr) > maxNesting {
+		return nil, fmt.Errorf("the expression has more than %d nested parentheses: %w", maxNesting, errors.ErrInvalid)
+	}
 	e, err := parser.ParseString("", expr)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse expression=%q: %v: %w", expr, err, errors.ErrInvalid)
 	}
 	return e, nil
 }
+
+// nesting returns the maximum number of nested parentheses in the expr
+func nesting(expr string) int {
+	var depth, res int
+	var quote rune
+	for _, c := range expr {
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"':
+			quote = c
+		case c == '(':
+			depth++
+			res = max(res, depth)
+		case c == ')':
+			depth--
+		}
+	}
+	return res
+}
-- 
2.43.0


From afe1b034edeae96eefb80b80895209fd7a49d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 37/62] fix: string constants must not be taken for keywords
 and operators of an expression

---
 pkg/ql/parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/ql/parser.go b/pkg/ql/parser.go
index ecc65e4..cc16331 100644
--- a/pkg/ql/parser.go
+++ b/pkg/ql/parser.go
@@ -25,26 +25,26 @@ import (
 type (
 	// Expression is an AST element which describes a series of OR conditions
 	Expression struct {
-		Or []*OrCondition `@@ { "OR" @@ }`
+		Or []*OrCondition `@@ { "OR":Keyword @@ }`
 	}
 
 	// OrCondition is an AST element which describes a series of AND conditions
 	OrCondition struct {
-		And []*XCondition `@@ { "AND" @@ }`
+		And []*XCondition `@@ { "AND":Keyword @@ }`
 	}
 
 	// XCondition is an AST element which groups either a Condition object or an Expression object
 	XCondition struct {
-		Not  bool        ` [@"NOT"] `
+		Not  bool        ` [@"NOT":Keyword] `
 		Cond *Condition  `( @@`
-		Expr *Expression `| "(" @@ ")")`
+		Expr *Expression `| "(":Operators @@ ")":Operators)`
 	}
 
 	// Condition is a unary or binary logical operation which has first mandatory param and
 	// optional operation and second param
 	Condition struct {
 		FirstParam  Param  `  @@`
-		Op          string ` [@("<"|">"|">="|"<="|"!="|"="|"IN"|"LIKE")`
+		Op          string ` [@("<":Operators|">":Operators|">=":Operators|"<=":Operators|"!=":Operators|"=":Operators|"IN":Keyword|"LIKE":Keyword)`
 		SecondParam *Param ` @@]`
 	}
 
@@ -53,7 +53,7 @@ type (
 		Const      *Const    ` @@`
 		Function   *Function ` | @@`
 		Identifier string    ` | @Ident`
-		Array      []*Const  `|"[" (@@ {"," @@})?"]"`
+		Array      []*Const  `|"[":Operators (@@ {",":Operators @@})?"]":Operators`
 	}
 
 	// Const contains the constant either string or float32 value
@@ -65,7 +65,7 @@ type (
 	// Function is a functional parameter
 	Function struct {
 		Name   string   ` @Ident `
-		Params []*Param ` "(" (@@ {"," @@})? ")"`
+		Params []*Param ` "(":Operators (@@ {",":Operators @@})? ")":Operators`
 	}
 )
 
-- 
2.43.0


From 9146e2cb62711c655f52f6a61bf131cf8956525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 38/62] fix: closing an iterator on a removed first element
 must move the head of the map

---
 golibs/container/iterable/map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/golibs/container/iterable/map.go b/golibs/container/iterable/map.go
index 405716c..eecb752 100644
--- a/golibs/container/iterable/map.go
+++ b/golibs/container/iterable/map.go
@@ -132,7 +132,9 @@ func (im *Map[K, V]) getValue(p *rlItem[K, V]) *rlItem[K, V] {
 func (im *Map[K, V]) release(p *rlItem[K, V]) {
 	p.refCnt--
 	if p.state == rlDeleted {
-		p.delete()
+		if head := p.delete(); head != nil {
+			im.head = head
+		}
 		if p.refCnt == 0 {
 			im.pool.Put(p)
 		}
-- 
2.43.0


From d0dc60e22df0e3cf9fbcadcdbd064d35467b61f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 39/62] fix: a value whose key was removed while it was being
 loaded must not get into the cache

---
 golibs/container/lru/ecache.go | 39 ++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/golibs/container/lru/ecache.go b/golibs/container/lru/ecache.go
index fc651d5..e1e9f29 100644
--- a/golibs/container/lru/ecache.go
+++ b/golibs/container/lru/ecache.go
@@ -27,12 +27,20 @@ type ECache[PK any, K comparable, V any] struct {
 	lock           sync.Mutex
 	maxSize        int
 	items          *iterable.Map[K, pair[PK, V]]
-	inflight       map[K]chan struct{}
+	inflight       map[K]*inflightLoad
 	createNewF     CreatePoolElemF[PK, V]
 	onDeleteF      OnDeleteElemF[PK, V]
 	mapToInnerKeyF MapToInnerKeyF[PK, K]
 }
 
+// inflightLoad describes an element which is being created
+type inflightLoad struct {
+	// done is closed when the creation is over
+	done chan struct{}
+	// stale is true when the key was removed after the creation started, so the result must not be cached
+	stale bool
+}
+
 type pair[PK any, V any] struct {
 	pk PK
 	v  V
@@ -54,7 +62,7 @@ func NewECache[PK any, K comparable, V any](maxSize int, toComparableF MapToInne
 	}
 	p := new(ECache[PK, K, V])
 	p.items = iterable.NewMap[K, pair[PK, V]]()
-	p.inflight = make(map[K]chan struct{})
+	p.inflight = make(map[K]*inflightLoad)
 	p.maxSize = maxSize
 	p.createNewF = createNewF
 	p.onDeleteF = onDeleteF
@@ -74,26 +82,31 @@ func (p *ECache[PK, K, V]) GetOrCreate(pk PK) (V, error) {
 			p.lock.Unlock()
 			return res.v, nil
 		}
-		ch, watcher := p.inflight[k]
+		load, watcher := p.inflight[k]
 		if !watcher {
-			ch = make(chan struct{})
-			p.inflight[k] = ch
+			load = &inflightLoad{done: make(chan struct{})}
+			p.inflight[k] = load
 		}
 		p.lock.Unlock()
 
 		// if watcher is true, it means that another goroutine already creating the new item,
 		// so it needs to wait for the result instead of requesting new value.
 		if watcher {
-			<-ch
+			<-load.done
 			continue
 		}
 
 		v, err := p.createNewF(pk)
 
 		p.lock.Lock()
-		close(ch)
+		close(load.done)
 		delete(p.inflight, k)
-		if err == nil {
+		if err == nil && load.stale {
+			// the key was removed meanwhile, the value may be outdated: it is for the caller only
+			if p.onDeleteF != nil {
+				p.onDeleteF(pk, v)
+			}
+		} else if err == nil {
 			p.items.Add(k, pair[PK, V]{pk, v})
 			if p.maxSize < p.items.Len() {
 				k, _ := p.items.First()
@@ -111,12 +124,16 @@ func (p *ECache[PK, K, V]) GetOrCreate(pk PK) (V, error) {
 }
 
 // Remove deletes the element by key k. It returns true if the element
-// was in the collection and false if it was not found
+// was in the collection and false if it was not found. The result of a creation for the key, which is
+// in progress, will not be stored in the collection
 func (p *ECache[PK, K, V]) Remove(pk PK) bool {
 	k := p.mapToInnerKeyF(pk)
 	p.lock.Lock()
 	defer p.lock.Unlock()
 
+	if load, ok := p.inflight[k]; ok {
+		load.stale = true
+	}
 	v, ok := p.items.Get(k)
 	if !ok {
 		return false
@@ -132,7 +149,11 @@ func (p *ECache[PK, K, V]) Remove(pk PK) bool {
 func (p *ECache[PK, K, V]) Clear() int {
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	for _, load := range p.inflight {
+		load.stale = true
+	}
 	it := p.items.Iterator()
+	defer it.Close()
 	removed := 0
 	for it.HasNext() {
 		e, ok := it.Next()
-- 
2.43.0


From f3f583ad1fea6ab70a21f7cbe903e73770b85a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 40/62] fix: the metadata cache kept what a failed change may
 have replaced

---
 pkg/storage/cache/cache.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/storage/cache/cache.go b/pkg/storage/cache/cache.go
index c4f3992..3f049ec 100644
--- a/pkg/storage/cache/cache.go
+++ b/pkg/storage/cache/cache.go
@@ -90,11 +90,12 @@ func (s *CachedStorage) GetLogByID(ctx context.Context, id string) (*solaris.Log
 // UpdateLog implements storage.Logs
 func (s *CachedStorage) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
 	l, err := s.storage.UpdateLog(ctx, log)
+	// the storage may report an error, but have the change applied
+	s.logsCache.Remove(log.ID)
 	if err != nil {
 		return nil, err
 	}
-	s.logsCache.Remove(log.ID)
-	return l, err
+	return l, nil
 }
 
 // QueryLogs implements storage.Logs
@@ -106,6 +107,9 @@ func (s *CachedStorage) QueryLogs(ctx context.Context, qr storage.QueryLogsReque
 func (s *CachedStorage) DeleteLogs(ctx context.Context, request storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
 	dr, err := s.storage.DeleteLogs(ctx, request)
 	if err != nil {
+		// the storage may report an error, but have some logs deleted, and they are not known
+		s.logsCache.Clear()
+		s.chunksCache.Clear()
 		return nil, err
 	}
 	for _, id := range dr.DeletedIDs {
@@ -134,9 +138,8 @@ func (s *CachedStorage) GetChunks(ctx context.Context, logID string) ([]logfs.Ch
 
 // UpsertChunkInfos implements logfs.LogsMetaStorage
 func (s *CachedStorage) UpsertChunkInfos(ctx context.Context, logID string, cis []logfs.ChunkInfo) error {
-	if err := s.storage.UpsertChunkInfos(ctx, logID, cis); err != nil {
-		return err
-	}
+	err := s.storage.UpsertChunkInfos(ctx, logID, cis)
+	// the storage may report an error, but have the change applied
 	s.chunksCache.Remove(logID)
-	return nil
+	return err
 }
-- 
2.43.0


From ade7f8941f134ff0ee7d67d16a58eb3a726c574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 41/62] fix: the cached last chunk of a log without chunks must
 not exist

---
 pkg/storage/cache/cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/cache/cache.go b/pkg/storage/cache/cache.go
index 3f049ec..4698b93 100644
--- a/pkg/storage/cache/cache.go
+++ b/pkg/storage/cache/cache.go
@@ -16,9 +16,11 @@ package cache
 
 import (
 	"context"
+	"fmt"
 	"github.com/logrange/linker"
 	"github.com/solarisdb/solaris/api/gen/solaris/v1"
 	"github.com/solarisdb/solaris/golibs/container/lru"
+	"github.com/solarisdb/solaris/golibs/errors"
 	"github.com/solarisdb/solaris/pkg/storage"
 	"github.com/solarisdb/solaris/pkg/storage/logfs"
 	"sort"
@@ -126,7 +128,7 @@ func (s *CachedStorage) GetLastChunk(ctx context.Context, logID string) (logfs.C
 		return logfs.ChunkInfo{}, err
 	}
 	if len(cis) == 0 {
-		return logfs.ChunkInfo{}, nil
+		return logfs.ChunkInfo{}, fmt.Errorf("the log id=%s has no chunks: %w", logID, errors.ErrNotExist)
 	}
 	return cis[len(cis)-1], nil
 }
-- 
2.43.0


From 63e0a15f7d196f10f54225369b950d3e34170a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 42/62] fix: a merged read must not mix in records appended
 after the end of a log was seen

---
 pkg/api/riterator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/api/riterator.go b/pkg/api/riterator.go
index 2e0d611..7ae850c 100644
--- a/pkg/api/riterator.go
+++ b/pkg/api/riterator.go
@@ -87,6 +87,10 @@ func (ri *rIterator) fillBuf() error {
 	if ri.bPos < len(ri.buf) {
 		return ri.ctx.Err()
 	}
+	if ri.eof {
+		// the records appended since the end was seen must not be mixed in, they would break the order
+		return ri.ctx.Err()
+	}
 
 	q := ri.baseQuery
 	q.Limit = min(100, ri.baseQuery.Limit)
-- 
2.43.0


From 605687c43a6bf5e62c9bc5fe0d7040589304c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 43/62] fix: block sizes that cannot be used are refused by the
 block allocator

---
 golibs/container/bytes/blocks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/container/bytes/blocks.go b/golibs/container/bytes/blocks.go
index 613e1e3..0b21848 100644
--- a/golibs/container/bytes/blocks.go
+++ b/golibs/container/bytes/blocks.go
@@ -87,7 +87,7 @@ func GetBlocksInSegment(blkSize int) int {
 func NewBlocks(bs int, bts Buffer, fit bool) (*Blocks, error) {
 	// get absolute number of blocks in a segment
 	blksInSegm := GetBlocksInSegment(bs)
-	if bs < 0 {
+	if blksInSegm < 0 {
 		return nil, fmt.Errorf("incorrect block size=%d, should multiple on naturanl integer to get %d: %w ", bs, os.Getpagesize(), errors.ErrInvalid)
 	}
 
-- 
2.43.0


From f09eb5428be45b98b5745d6a16362983b4499647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 44/62] fix: in-memory kvs: an expired record is absent for all
 operations and wakes up its waiters

---
 golibs/kvs/inmem/inmem.go | 102 ++++++++++++++++++++++----------------
 1 file changed, 58 insertions(+), 44 deletions(-)

diff --git a/golibs/kvs/inmem/inmem.go b/golibs/kvs/inmem/inmem.go
index 8ef80ba..1007e57 100644
--- a/golibs/kvs/inmem/inmem.go
+++ b/golibs/kvs/inmem/inmem.go
@@ -57,7 +57,7 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 	if ctx.Err() != nil {
 		return "", ctx.Err()
 	}
-	if r, ok := s.recs[record.Key]; ok {
+	if r, ok := s.get(record.Key); ok {
 		return r.Version, errors.ErrExist
 	}
 	record.Version = ulidutils.NewID()
@@ -68,17 +68,10 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 func (s *service) Get(ctx context.Context, key string) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	r, ok := s.recs[key]
+	r, ok := s.get(key)
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	if r.ExpiresAt != nil {
-		if r.ExpiresAt.Before(time.Now()) {
-			delete(s.recs, key)
-			s.notifyWaiters(key)
-			return kvs.Record{}, errors.ErrNotExist
-		}
-	}
 	return r, nil
 }
 
@@ -108,17 +101,10 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 
 	res := make([]*kvs.Record, len(keys))
 	for idx, key := range keys {
-		r, ok := s.recs[key]
+		r, ok := s.get(key)
 		if !ok {
 			continue
 		}
-		if r.ExpiresAt != nil {
-			if r.ExpiresAt.Before(time.Now()) {
-				delete(s.recs, key)
-				s.notifyWaiters(key)
-				continue
-			}
-		}
 		res[idx] = &r
 	}
 	return res, nil
@@ -127,17 +113,10 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 func (s *service) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	r, ok := s.recs[record.Key]
+	r, ok := s.get(record.Key)
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	if r.ExpiresAt != nil {
-		if r.ExpiresAt.Before(time.Now()) {
-			delete(s.recs, record.Key)
-			s.notifyWaiters(record.Key)
-			return kvs.Record{}, errors.ErrNotExist
-		}
-	}
 	if r.Version != record.Version {
 		return kvs.Record{}, errors.ErrConflict
 	}
@@ -151,7 +130,7 @@ func (s *service) Delete(ctx context.Context, key string) error {
 	s.lock.Lock()
 	defer s.lock.Unlock()
 
-	if _, ok := s.recs[key]; !ok {
+	if _, ok := s.get(key); !ok {
 		return errors.ErrNotExist
 	}
 	delete(s.recs, key)
@@ -162,7 +141,7 @@ func (s *service) Delete(ctx context.Context, key string) error {
 func (s *service) WaitForVersionChange(ctx context.Context, key, ver string) error {
 	for {
 		s.lock.Lock()
-		r, ok := s.recs[key]
+		r, ok := s.get(key)
 		if !ok {
 			s.lock.Unlock()
 			return errors.ErrNotExist
@@ -179,23 +158,44 @@ func (s *service) WaitForVersionChange(ctx context.Context, key, ver string) err
 		ws.waiters++
 		s.lock.Unlock()
 
-		select {
-		case <-ctx.Done():
-			s.lock.Lock()
-			defer s.lock.Unlock()
-			ws1, ok := s.verChange[key]
-			if !ok || ws.done != ws1.done {
-				return ctx.Err()
-			}
-			ws.waiters--
-			if ws.waiters == 0 {
-				close(ws.done)
-				delete(s.verChange, key)
-			}
-			return ctx.Err()
-		case <-ws.done:
-			// need to check the version, go around
+		if err := s.wait(ctx, key, ws, r.ExpiresAt); err != nil {
+			return err
 		}
+		// need to check the version, go around
+	}
+}
+
+// wait blocks until the ws is notified, the expiresAt time is passed (if it is provided), or the ctx is closed
+func (s *service) wait(ctx context.Context, key string, ws *waiter, expiresAt *time.Time) error {
+	var expired <-chan time.Time
+	if expiresAt != nil {
+		tmr := time.NewTimer(time.Until(*expiresAt))
+		defer tmr.Stop()
+		expired = tmr.C
+	}
+	select {
+	case <-ctx.Done():
+		s.leave(key, ws)
+		return ctx.Err()
+	case <-expired:
+		s.leave(key, ws)
+	case <-ws.done:
+	}
+	return nil
+}
+
+// leave is called by a waiter, which was not notified
+func (s *service) leave(key string, ws *waiter) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	ws1, ok := s.verChange[key]
+	if !ok || ws.done != ws1.done {
+		return
+	}
+	ws.waiters--
+	if ws.waiters == 0 {
+		close(ws.done)
+		delete(s.verChange, key)
 	}
 }
 
@@ -209,13 +209,27 @@ func (s *service) ListKeys(ctx context.Context, pattern string) (iterable.Iterat
 	}
 	res := []string{}
 	for k := range s.recs {
-		if g.Match(k) {
+		if !g.Match(k) {
+			continue
+		}
+		if _, ok := s.get(k); ok {
 			res = append(res, k)
 		}
 	}
 	return &keysIterator{res: res}, nil
 }
 
+// get returns the record by its key. The record which is expired is removed. The s.lock must be held.
+func (s *service) get(key string) (kvs.Record, bool) {
+	r, ok := s.recs[key]
+	if ok && r.ExpiresAt != nil && r.ExpiresAt.Before(time.Now()) {
+		delete(s.recs, key)
+		s.notifyWaiters(key)
+		return kvs.Record{}, false
+	}
+	return r, ok
+}
+
 func (s *service) notifyWaiters(key string) {
 	ws, ok := s.verChange[key]
 	if !ok {
-- 
2.43.0


From 028ff2593e1f924d4d92282a50fd07967a68f35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 45/62] fix: in-memory kvs: do not share the values of the
 records with the callers

---
 golibs/kvs/inmem/inmem.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/golibs/kvs/inmem/inmem.go b/golibs/kvs/inmem/inmem.go
index 1007e57..ee46c21 100644
--- a/golibs/kvs/inmem/inmem.go
+++ b/golibs/kvs/inmem/inmem.go
@@ -61,7 +61,7 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 		return r.Version, errors.ErrExist
 	}
 	record.Version = ulidutils.NewID()
-	s.recs[record.Key] = record
+	s.recs[record.Key] = record.Copy()
 	return record.Version, nil
 }
 
@@ -72,14 +72,14 @@ func (s *service) Get(ctx context.Context, key string) (kvs.Record, error) {
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	return r, nil
+	return r.Copy(), nil
 }
 
 func (s *service) Put(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
 	record.Version = ulidutils.NewID()
-	s.recs[record.Key] = record
+	s.recs[record.Key] = record.Copy()
 	s.notifyWaiters(record.Key)
 	return record, nil
 }
@@ -89,7 +89,7 @@ func (s *service) PutMany(ctx context.Context, records []kvs.Record) error {
 	defer s.lock.Unlock()
 	for _, r := range records {
 		r.Version = ulidutils.NewID()
-		s.recs[r.Key] = r
+		s.recs[r.Key] = r.Copy()
 		s.notifyWaiters(r.Key)
 	}
 	return nil
@@ -105,6 +105,7 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 		if !ok {
 			continue
 		}
+		r = r.Copy()
 		res[idx] = &r
 	}
 	return res, nil
@@ -121,7 +122,7 @@ func (s *service) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Reco
 		return kvs.Record{}, errors.ErrConflict
 	}
 	record.Version = ulidutils.NewID()
-	s.recs[record.Key] = record
+	s.recs[record.Key] = record.Copy()
 	s.notifyWaiters(record.Key)
 	return record, nil
 }
-- 
2.43.0


From 3a7801e03a9487a694396761f10eb2faf6de00b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 46/62] fix: redis kvs: Create returns the version of the
 existing record

---
 golibs/kvs/redis/redis.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 76d8d34..7b29641 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -47,14 +47,23 @@ func New(opts *redis.Options) kvs.Storage {
 func (c *client) Create(ctx context.Context, record kvs.Record) (string, error) {
 	record.Version = ulidutils.NewID()
 	buf := rec2db(&record)
-	ok, err := c.rdb.SetNX(ctx, rKey(record.Key), buf, expiration(record.ExpiresAt, time.Now())).Result()
-	if err != nil {
-		return "", checkErr(err)
-	}
-	if !ok {
-		return "", errors.ErrExist
+	for {
+		ok, err := c.rdb.SetNX(ctx, rKey(record.Key), buf, expiration(record.ExpiresAt, time.Now())).Result()
+		if err != nil {
+			return "", checkErr(err)
+		}
+		if ok {
+			return record.Version, nil
+		}
+		r, err := c.Get(ctx, record.Key)
+		if err == nil {
+			return r.Version, errors.ErrExist
+		}
+		if !errors.Is(err, errors.ErrNotExist) {
+			return "", err
+		}
+		// the record has gone in between, try again
 	}
-	return record.Version, nil
 }
 
 func (c *client) Get(ctx context.Context, key string) (kvs.Record, error) {
-- 
2.43.0


From 7875e58da2b6719d7232d78d67115af6d17b0966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 47/62] fix: redis kvs: PutMany gives the records new versions

---
 golibs/kvs/redis/redis.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 7b29641..c5187df 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -108,6 +108,7 @@ func (c *client) PutMany(ctx context.Context, records []kvs.Record) error {
 			mset = nil
 			break
 		}
+		r.Version = ulidutils.NewID()
 		mset = append(mset, rKey(r.Key))
 		mset = append(mset, cast.ByteArrayToString(rec2db(&r)))
 	}
-- 
2.43.0


From c7c161a3e6ca3a9a5217a14f0afc3395645b78e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 48/62] fix: redis kvs: CasByVersion does not fail with the
 transaction error if the record is changed in between

---
 golibs/kvs/redis/redis.go | 41 +++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index c5187df..152d5c1 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -127,24 +127,31 @@ func (c *client) PutMany(ctx context.Context, records []kvs.Record) error {
 
 func (c *client) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	key := rKey(record.Key)
-	err := c.rdb.Watch(ctx, func(tx *redis.Tx) error {
-		val, err := tx.Get(ctx, key).Result()
-		if err != nil {
-			return checkErr(err)
-		}
-		r := db2rec(cast.StringToByteArray(val))
-		if r.Version != record.Version {
-			return errors.ErrConflict
+	ver := record.Version
+	for {
+		err := c.rdb.Watch(ctx, func(tx *redis.Tx) error {
+			val, err := tx.Get(ctx, key).Result()
+			if err != nil {
+				return checkErr(err)
+			}
+			r := db2rec(cast.StringToByteArray(val))
+			if r.Version != ver {
+				return errors.ErrConflict
+			}
+			record.Version = ulidutils.NewID()
+			buf := rec2db(&record)
+			_, err = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+				_, err2 := pipe.Set(ctx, key, buf, expiration(record.ExpiresAt, time.Now())).Result()
+				return err2
+			})
+			return err
+		}, key)
+		if errors.Is(err, redis.TxFailedErr) {
+			// the record was changed or removed in between, look at it again
+			continue
 		}
-		record.Version = ulidutils.NewID()
-		buf := rec2db(&record)
-		_, err = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
-			_, err2 := pipe.Set(ctx, key, buf, expiration(record.ExpiresAt, time.Now())).Result()
-			return err2
-		})
-		return err
-	}, key)
-	return record, err
+		return record, err
+	}
 }
 
 func (c *client) Delete(ctx context.Context, key string) error {
-- 
2.43.0


From 92e360fbbf72a2418a4eb520e3b44921c7f73690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 49/62] fix: redis kvs: ListKeys follows the glob patterns and
 returns every key once

---
 golibs/kvs/redis/redis.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 152d5c1..2ecb6d4 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -17,6 +17,7 @@ import (
 	"context"
 	"fmt"
 	"github.com/go-redis/redis/v8"
+	"github.com/gobwas/glob"
 	"github.com/solarisdb/solaris/golibs/cast"
 	"github.com/solarisdb/solaris/golibs/container/iterable"
 	"github.com/solarisdb/solaris/golibs/errors"
@@ -25,6 +26,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/ulidutils"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
+	"strings"
 	"time"
 )
 
@@ -34,8 +36,10 @@ type (
 	}
 
 	keysIterator struct {
-		si  *redis.ScanIterator
-		val *string
+		si   *redis.ScanIterator
+		g    glob.Glob
+		seen map[string]struct{}
+		val  *string
 	}
 )
 
@@ -199,8 +203,18 @@ func (c *client) WaitForVersionChange(ctx context.Context, key, ver string) erro
 
 // ListKeys allows to read the keys by the pattern provided.
 func (c *client) ListKeys(ctx context.Context, pattern string) (iterable.Iterator[string], error) {
-	si := c.rdb.Scan(ctx, 0, rKey(pattern), 1000).Iterator()
-	return &keysIterator{si: si}, nil
+	pattern = strings.TrimLeft(pattern, "/")
+	g, err := glob.Compile(pattern)
+	if err != nil {
+		return nil, fmt.Errorf("could not compile the pattern %q: %w", pattern, err)
+	}
+	// redis patterns differ from the glob ones, so let redis look for the prefix only
+	prefix := pattern
+	if idx := strings.IndexAny(pattern, "*?[]{},!\\"); idx >= 0 {
+		prefix = pattern[:idx]
+	}
+	si := c.rdb.Scan(ctx, 0, rKey(prefix)+"*", 1000).Iterator()
+	return &keysIterator{si: si, g: g, seen: make(map[string]struct{})}, nil
 }
 
 func (c *client) Close() error {
@@ -273,8 +287,14 @@ func db2rec(buf []byte) kvs.Record {
 var _ iterable.Iterator[string] = (*keysIterator)(nil)
 
 func (k *keysIterator) HasNext() bool {
-	if k.val == nil && k.si.Next(context.Background()) {
-		k.val = cast.Ptr(key(k.si.Val()))
+	for k.val == nil && k.si.Next(context.Background()) {
+		val := key(k.si.Val())
+		if _, ok := k.seen[val]; ok || !k.g.Match(val) {
+			// the SCAN may return a key many times
+			continue
+		}
+		k.seen[val] = struct{}{}
+		k.val = cast.Ptr(val)
 	}
 	return k.val != nil
 }
-- 
2.43.0


From 4debb5084df1b2ed14ff5990735ba97a13f72480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 50/62] fix: redis kvs: GetMany does not fail if there are no
 keys

---
 golibs/kvs/redis/redis.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 2ecb6d4..25bbb0b 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -82,6 +82,9 @@ func (c *client) Get(ctx context.Context, key string) (kvs.Record, error) {
 }
 
 func (c *client) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, error) {
+	if len(keys) == 0 {
+		return []*kvs.Record{}, nil
+	}
 	res, err := c.rdb.MGet(ctx, rKeys(keys)...).Result()
 	if err != nil {
 		return nil, checkErr(err)
-- 
2.43.0


From 0f58ca11200435d68af348cf956f36b1c3fba691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 51/62] fix: distlock: unlock removes the record written by the
 lock itself only

---
 golibs/kvs/distlock/kvlock.go | 69 +++++++++++++++++++++++++----------
 golibs/kvs/inmem/inmem.go     |  2 +
 2 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/golibs/kvs/distlock/kvlock.go b/golibs/kvs/distlock/kvlock.go
index ffb2b20..10e12c8 100644
--- a/golibs/kvs/distlock/kvlock.go
+++ b/golibs/kvs/distlock/kvlock.go
@@ -24,6 +24,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/logging"
 	"github.com/solarisdb/solaris/golibs/sync"
 	"github.com/solarisdb/solaris/golibs/timeout"
+	stdsync "sync"
 	"sync/atomic"
 	"time"
 )
@@ -45,9 +46,12 @@ type kvsLock struct {
 	dlp     *kvsLockProvider // immutable
 	key     string           // immutable
 	lockCh  chan bool        // immutable
-	future  atomic.Value     // timeout.Future
 	lckCntr int32
 	waiters int32
+
+	lease  stdsync.Mutex  // guards the fields below
+	ver    string         // version of the record while the lock is held
+	future timeout.Future // the next renewal of the lease
 }
 
 // LockProvider helper interface to indicate that the object has
@@ -111,7 +115,7 @@ func (l *kvsLock) TryLock(ctx context.Context) bool {
 		Value:     cast.StringToByteArray(""),
 		ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
 	}); err == nil {
-		l.future.Store(timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2))
+		l.acquired(ver)
 		return true
 	}
 	atomic.StoreInt32(&l.lckCntr, 0)
@@ -139,12 +143,10 @@ func (l *kvsLock) Unlock() {
 		panic("kvsLock: an attempt to unlock not-locked object " + l.String())
 	}
 
-	future := l.future.Load().(timeout.Future)
-	future.Cancel()
-	err := l.dlp.Storage.Delete(context.Background(), l.key)
-	if err != nil && !errors.Is(err, errors.ErrNotExist) {
+	if err := l.release(); err != nil {
+		// either the lease is expired (and the lock may be held by somebody else already), or there is
 		// some serious situation with the storage corruption or non-availability
-		l.dlp.logger.Warnf("kvsLock.Unlock(): could not read the key %s, but will release the lock: %s", l.String(), err)
+		l.dlp.logger.Warnf("kvsLock.Unlock(): could not remove the key %s, but will release the lock: %s", l.String(), err)
 	}
 
 	// unlock the lock
@@ -174,7 +176,7 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 			ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
 		})
 		if err == nil {
-			l.future.Store(timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2))
+			l.acquired(ver)
 			return nil
 		}
 
@@ -189,12 +191,43 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 	return err
 }
 
-// supportTimeout tries to refresh the record timeout if we hold it too long (at least twice of leaseTTL)
-// the function is tricky, cause it uses CAS operation to update the record version and if the version
-// is updated, it recharges the timeout. This is where the new raise can happen and the new future may
-// overwrite the future flag stored in the atomic.
+// acquired is called when the lock record is created with the version ver
+func (l *kvsLock) acquired(ver string) {
+	l.lease.Lock()
+	defer l.lease.Unlock()
+	l.ver = ver
+	l.future = timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2)
+}
+
+// release stops the lease renewal and makes the lock record expired. The record is not touched if it is not
+// the one written by this lock: its lease could expire, and the lock could be acquired by another one since then.
+func (l *kvsLock) release() error {
+	l.lease.Lock()
+	defer l.lease.Unlock()
+	l.future.Cancel()
+	ver := l.ver
+	l.ver = ""
+	_, err := l.dlp.Storage.CasByVersion(context.Background(), kvs.Record{
+		Key:       l.key,
+		Value:     cast.StringToByteArray(""),
+		Version:   ver,
+		ExpiresAt: cast.Ptr(time.Now().Add(-time.Second)),
+	})
+	return err
+}
+
+// supportTimeout refreshes the record timeout if we hold it too long (at least half of leaseTTL). The function uses
+// the CAS operation to update the record by its version ver, and if it is updated, it schedules the next renewal.
 func (l *kvsLock) supportTimeout(ver string) {
-	future := l.future.Load().(timeout.Future)
+	if !l.lease.TryLock() {
+		// it is being released
+		return
+	}
+	defer l.lease.Unlock()
+	if l.ver != ver {
+		l.dlp.logger.Debugf("supportTimeout raise detected, the lock is released already, key=%s", l.key)
+		return
+	}
 	r, err := l.dlp.Storage.CasByVersion(context.Background(), kvs.Record{
 		Key:       l.key,
 		Value:     cast.StringToByteArray(""),
@@ -202,15 +235,11 @@ func (l *kvsLock) supportTimeout(ver string) {
 		ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
 	})
 	if err != nil {
-		l.dlp.logger.Debugf("supportTimeout raise detected, just do nothing for the key=%s, err=%s", l.key, err)
+		l.dlp.logger.Warnf("could not renew the lease for the key=%s, err=%s", l.key, err)
 		return
 	}
-	newFuture := timeout.Call(func() { l.supportTimeout(r.Version) }, l.dlp.leaseTTL/2)
-	if !l.future.CompareAndSwap(future, newFuture) {
-		// somebody already started the new timer, so drop this and forget about the incident
-		l.dlp.logger.Debugf("supportTimeout raise 2 detected, just cancelling the call timeout")
-		newFuture.Cancel()
-	}
+	l.ver = r.Version
+	l.future = timeout.Call(func() { l.supportTimeout(r.Version) }, l.dlp.leaseTTL/2)
 }
 
 func (l *kvsLock) isLocked() bool {
diff --git a/golibs/kvs/inmem/inmem.go b/golibs/kvs/inmem/inmem.go
index ee46c21..98bb1a9 100644
--- a/golibs/kvs/inmem/inmem.go
+++ b/golibs/kvs/inmem/inmem.go
@@ -124,6 +124,8 @@ func (s *service) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Reco
 	record.Version = ulidutils.NewID()
 	s.recs[record.Key] = record.Copy()
 	s.notifyWaiters(record.Key)
+	// don't keep the record if it is expired
+	_, _ = s.get(record.Key)
 	return record, nil
 }
 
-- 
2.43.0


From 9f1beddc57f122832488d23aa5373eccbdb8546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 52/62] fix: distlock: keep renewing the lease if a renewal
 fails due to the storage

---
 golibs/kvs/distlock/kvlock.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/golibs/kvs/distlock/kvlock.go b/golibs/kvs/distlock/kvlock.go
index 10e12c8..a5b69c1 100644
--- a/golibs/kvs/distlock/kvlock.go
+++ b/golibs/kvs/distlock/kvlock.go
@@ -110,12 +110,13 @@ func (l *kvsLock) TryLock(ctx context.Context) bool {
 	if err := l.tryLockInternal(); err != nil {
 		return false
 	}
+	expiresAt := time.Now().Add(l.dlp.leaseTTL)
 	if ver, err := l.dlp.Storage.Create(ctx, kvs.Record{
 		Key:       l.key,
 		Value:     cast.StringToByteArray(""),
-		ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
+		ExpiresAt: cast.Ptr(expiresAt),
 	}); err == nil {
-		l.acquired(ver)
+		l.acquired(ver, expiresAt)
 		return true
 	}
 	atomic.StoreInt32(&l.lckCntr, 0)
@@ -170,13 +171,14 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 	err := ctx.Err()
 	var ver string
 	for err == nil {
+		expiresAt := time.Now().Add(l.dlp.leaseTTL)
 		ver, err = l.dlp.Storage.Create(ctx, kvs.Record{
 			Key:       l.key,
 			Value:     cast.StringToByteArray(""),
-			ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
+			ExpiresAt: cast.Ptr(expiresAt),
 		})
 		if err == nil {
-			l.acquired(ver)
+			l.acquired(ver, expiresAt)
 			return nil
 		}
 
@@ -191,12 +193,12 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 	return err
 }
 
-// acquired is called when the lock record is created with the version ver
-func (l *kvsLock) acquired(ver string) {
+// acquired is called when the lock record, which expires at expiresAt, is created with the version ver
+func (l *kvsLock) acquired(ver string, expiresAt time.Time) {
 	l.lease.Lock()
 	defer l.lease.Unlock()
 	l.ver = ver
-	l.future = timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2)
+	l.future = timeout.Call(func() { l.supportTimeout(ver, expiresAt) }, l.dlp.leaseTTL/2)
 }
 
 // release stops the lease renewal and makes the lock record expired. The record is not touched if it is not
@@ -217,8 +219,9 @@ func (l *kvsLock) release() error {
 }
 
 // supportTimeout refreshes the record timeout if we hold it too long (at least half of leaseTTL). The function uses
-// the CAS operation to update the record by its version ver, and if it is updated, it schedules the next renewal.
-func (l *kvsLock) supportTimeout(ver string) {
+// the CAS operation to update the record by its version ver, which expires at expiresAt, and if it is updated, it
+// schedules the next renewal.
+func (l *kvsLock) supportTimeout(ver string, expiresAt time.Time) {
 	if !l.lease.TryLock() {
 		// it is being released
 		return
@@ -228,18 +231,23 @@ func (l *kvsLock) supportTimeout(ver string) {
 		l.dlp.logger.Debugf("supportTimeout raise detected, the lock is released already, key=%s", l.key)
 		return
 	}
+	newExpiresAt := time.Now().Add(l.dlp.leaseTTL)
 	r, err := l.dlp.Storage.CasByVersion(context.Background(), kvs.Record{
 		Key:       l.key,
 		Value:     cast.StringToByteArray(""),
 		Version:   ver,
-		ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
+		ExpiresAt: cast.Ptr(newExpiresAt),
 	})
 	if err != nil {
 		l.dlp.logger.Warnf("could not renew the lease for the key=%s, err=%s", l.key, err)
+		if !errors.Is(err, errors.ErrNotExist) && !errors.Is(err, errors.ErrConflict) && time.Now().Before(expiresAt) {
+			// the lease is ours still, so don't lose it and try again
+			l.future = timeout.Call(func() { l.supportTimeout(ver, expiresAt) }, l.dlp.leaseTTL/10)
+		}
 		return
 	}
 	l.ver = r.Version
-	l.future = timeout.Call(func() { l.supportTimeout(r.Version) }, l.dlp.leaseTTL/2)
+	l.future = timeout.Call(func() { l.supportTimeout(r.Version, newExpiresAt) }, l.dlp.leaseTTL/2)
 }
 
 func (l *kvsLock) isLocked() bool {
-- 
2.43.0


From 9ab0f3dea55a5ac5bf84161e5cabad1376c291b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:36 +0000
Subject: [PATCH 53/62] fix: sss inmem: the storage may be used concurrently

---
 golibs/sss/inmem/storage.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/golibs/sss/inmem/storage.go b/golibs/sss/inmem/storage.go
index c9e9212..9752cfd 100755
--- a/golibs/sss/inmem/storage.go
+++ b/golibs/sss/inmem/storage.go
@@ -23,11 +23,13 @@ import (
 	"io"
 	"io/ioutil"
 	"strings"
+	"sync"
 )
 
 // Storage provides kvs.Storage functionality in local process memory. This instance can be
 // used in a single-node configuration or in a test-purposes.
 type Storage struct {
+	lock    sync.RWMutex
 	storage map[string][]byte
 }
 
@@ -47,6 +49,8 @@ func (st *Storage) Get(_ context.Context, key string) (io.ReadCloser, error) {
 		return nil, fmt.Errorf("Storage.Get(): invalid key=%s", key)
 	}
 
+	st.lock.RLock()
+	defer st.lock.RUnlock()
 	if buf, ok := st.storage[key]; ok {
 		return ioutil.NopCloser(bytes.NewReader(buf)), nil
 	}
@@ -66,6 +70,9 @@ func (st *Storage) Put(_ context.Context, key string, r io.Reader) error {
 	}
 	b1 := make([]byte, len(buf))
 	copy(b1, buf)
+
+	st.lock.Lock()
+	defer st.lock.Unlock()
 	st.storage[key] = b1
 	return nil
 }
@@ -82,6 +89,8 @@ func (st *Storage) List(_ context.Context, path string) ([]string, error) {
 		return nil, fmt.Errorf("Storage.List(): invalid path=%s", path)
 	}
 
+	st.lock.RLock()
+	defer st.lock.RUnlock()
 	res := make([]string, 0, 10)
 	added := make(map[string]bool)
 	for k := range st.storage {
@@ -109,6 +118,8 @@ func (st *Storage) Delete(_ context.Context, key string) error {
 		return fmt.Errorf("Storage.Delete(): invalid key=%s", key)
 	}
 
+	st.lock.Lock()
+	defer st.lock.Unlock()
 	if _, ok := st.storage[key]; !ok {
 		return errors.ErrNotExist
 	}
-- 
2.43.0


From 8cfaf82487847920245b980355f6cc459c98dfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:04 +0000
Subject: [PATCH 54/62] fix: errors: errors of not comparable types must not
 panic in GRPCStatusCode

---
 golibs/errors/grpc.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/golibs/errors/grpc.go b/golibs/errors/grpc.go
index 56e0b45..3a3b7ea 100644
--- a/golibs/errors/grpc.go
+++ b/golibs/errors/grpc.go
@@ -74,9 +74,6 @@ func GRPCStatusCode(err error) codes.Code {
 	if code != codes.Unknown {
 		return code
 	}
-	if code, ok := errorsToCode[err]; ok {
-		return code
-	}
 	for e, c := range errorsToCode {
 		if errors.Is(err, e) {
 			return c
-- 
2.43.0


From 5a316f8de6f2d9a2674399334f117fd580089683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 55/62] fix: errors: report context errors with the Canceled
 and DeadlineExceeded codes

---
 golibs/errors/grpc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golibs/errors/grpc.go b/golibs/errors/grpc.go
index 3a3b7ea..8c6ad25 100644
--- a/golibs/errors/grpc.go
+++ b/golibs/errors/grpc.go
@@ -14,6 +14,7 @@
 package errors
 
 import (
+	"context"
 	"errors"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
@@ -46,6 +47,9 @@ var errorsToCode = map[error]codes.Code{
 	ErrUnimplemented: codes.Unimplemented,
 	ErrConflict:      codes.FailedPrecondition,
 	ErrCanceled:      codes.Canceled,
+
+	context.Canceled:         codes.Canceled,
+	context.DeadlineExceeded: codes.DeadlineExceeded,
 }
 
 // FromGRPCError receives a gRPC error (code-based) and returns the  one of the
-- 
2.43.0


From 557ab8845b1453acc88880ffc772811e98658c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 56/62] fix: errors: Is must not take an error without gRPC
 code for a communication error

---
 golibs/errors/errors.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/golibs/errors/errors.go b/golibs/errors/errors.go
index 500c235..eb41e32 100644
--- a/golibs/errors/errors.go
+++ b/golibs/errors/errors.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/solarisdb/solaris/golibs/cast"
+	"google.golang.org/grpc/status"
 	"os"
 	"strings"
 )
@@ -97,6 +98,10 @@ func Is(err, target error) bool {
 	if errors.Is(err, target) {
 		return true
 	}
+	if _, ok := status.FromError(err); !ok {
+		// not a gRPC error, no code to look at
+		return false
+	}
 	return errors.Is(FromGRPCError(err), target)
 }
 
-- 
2.43.0


From 24a081e027da4a7ffd9f0ec8e0c56d7a5473bc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 57/62] fix: rest: a malformed request is invalid, not an
 internal error

---
 pkg/api/rest/rest.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/api/rest/rest.go b/pkg/api/rest/rest.go
index 88ad023..983cb5e 100644
--- a/pkg/api/rest/rest.go
+++ b/pkg/api/rest/rest.go
@@ -174,11 +174,11 @@ func (r *Rest) errorResponse(c *gin.Context, err error, msg string) bool {
 func BindAppJson(c *gin.Context, inf interface{}) error {
 	ct := c.ContentType()
 	if ct != "application/json" {
-		return fmt.Errorf("invalid content type %s, \"application/json\" expected. err=%w", ct, errors.ErrInternal)
+		return fmt.Errorf("invalid content type %s, \"application/json\" expected. err=%w", ct, errors.ErrInvalid)
 	}
 	err := c.Bind(inf)
 	if err != nil {
-		err = fmt.Errorf("%s: %w", err.Error(), errors.ErrInternal)
+		err = fmt.Errorf("%s: %w", err.Error(), errors.ErrInvalid)
 	}
 	return err
 }
-- 
2.43.0


From addcf53cc0236bf72254253786b297883fde8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 58/62] fix: buntdb: calls of a closed storage return an error
 instead of a panic

---
 pkg/storage/buntdb/buntdb.go | 61 +++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 992a59a..f85daea 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -98,7 +98,10 @@ func (s *Storage) CreateLog(ctx context.Context, log *solaris.Log) (*solaris.Log
 	le.CreatedAt = timestamppb.Now()
 	le.UpdatedAt = le.CreatedAt
 
-	tx := mustBeginTx(s.db, true)
+	tx, err := beginTx(s.db, true)
+	if err != nil {
+		return nil, err
+	}
 	defer mustRollback(tx)
 
 	key := logKey(le.ID)
@@ -118,7 +121,10 @@ func (s *Storage) GetLogByID(ctx context.Context, id string) (*solaris.Log, erro
 		return nil, fmt.Errorf("id must be specified: %w", errors.ErrInvalid)
 	}
 
-	tx := mustBeginTx(s.db, false)
+	tx, err := beginTx(s.db, false)
+	if err != nil {
+		return nil, err
+	}
 	defer mustRollback(tx)
 
 	e, err := s.getLogEntry(tx, logKey(id), true)
@@ -131,7 +137,10 @@ func (s *Storage) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log
 		return nil, fmt.Errorf("log id must be specified: %w", errors.ErrInvalid)
 	}
 
-	tx := mustBeginTx(s.db, true)
+	tx, err := beginTx(s.db, true)
+	if err != nil {
+		return nil, err
+	}
 	defer mustRollback(tx)
 
 	le, err := s.getLogEntry(tx, logKey(log.ID), true)
@@ -197,7 +206,10 @@ func (s *Storage) DeleteLogs(ctx context.Context, req storage.DeleteLogsRequest)
 }
 
 func (s *Storage) deleteLogsByIDs(ctx context.Context, req storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
-	tx := mustBeginTx(s.db, true)
+	tx, err := beginTx(s.db, true)
+	if err != nil {
+		return nil, err
+	}
 	defer mustRollback(tx)
 
 	return s.deleteLogsByIDsTx(ctx, tx, req)
@@ -277,7 +289,10 @@ func (s *Storage) markLogDeleted(tx *buntdb.Tx, logID string) error {
 
 func (s *Storage) deleteLogsByCondition(ctx context.Context, req storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
 	// the logs must be selected and deleted in one transaction, otherwise they could be changed in between
-	tx := mustBeginTx(s.db, true)
+	tx, err := beginTx(s.db, true)
+	if err != nil {
+		return nil, err
+	}
 	defer mustRollback(tx)
 
 	var logIDs []string
@@ -307,7 +322,10 @@ func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsReques
 	logIDs := slices.Clone(qr.IDs)
 	slices.Sort(logIDs)
 
-	tx := mustBeginTx(s.db, false)
+	tx, err := beginTx(s.db, false)
+	if err != nil {
+		return nil, err
+	}
 	defer mustRollback(tx)
 
 	var total int64
@@ -343,7 +361,10 @@ func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsReques
 }
 
 func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
-	tx := mustBeginTx(s.db, false)
+	tx, err := beginTx(s.db, false)
+	if err != nil {
+		return nil, err
+	}
 	defer mustRollback(tx)
 
 	return s.queryLogsByConditionTx(ctx, tx, qr, skipMarkedDeleted)
@@ -425,7 +446,10 @@ func logKey(id string) string {
 
 // GetLastChunk implements logfs.LogsMetaStorage
 func (s *Storage) GetLastChunk(ctx context.Context, logID string) (logfs.ChunkInfo, error) {
-	tx := mustBeginTx(s.db, false)
+	tx, err := beginTx(s.db, false)
+	if err != nil {
+		return logfs.ChunkInfo{}, err
+	}
 	defer mustRollback(tx)
 
 	var ce *chnkEntry
@@ -446,7 +470,10 @@ func (s *Storage) GetLastChunk(ctx context.Context, logID string) (logfs.ChunkIn
 
 // GetChunks implements logfs.LogsMetaStorage
 func (s *Storage) GetChunks(ctx context.Context, logID string) ([]logfs.ChunkInfo, error) {
-	tx := mustBeginTx(s.db, false)
+	tx, err := beginTx(s.db, false)
+	if err != nil {
+		return nil, err
+	}
 	defer mustRollback(tx)
 
 	if _, err := s.getLogEntry(tx, logKey(logID), true); err != nil {
@@ -458,7 +485,10 @@ func (s *Storage) GetChunks(ctx context.Context, logID string) ([]logfs.ChunkInf
 
 // UpsertChunkInfos implements logfs.LogsMetaStorage
 func (s *Storage) UpsertChunkInfos(ctx context.Context, logID string, cis []logfs.ChunkInfo) error {
-	tx := mustBeginTx(s.db, true)
+	tx, err := beginTx(s.db, true)
+	if err != nil {
+		return err
+	}
 	defer mustRollback(tx)
 
 	if _, err := s.getLogEntry(tx, logKey(logID), true); err != nil {
@@ -511,8 +541,17 @@ func chnkKey(logID, chnkID string) string {
 
 // ===================================== helpers =====================================
 
-func mustBeginTx(db *buntdb.DB, writable bool) *buntdb.Tx {
+// beginTx returns an error if the database is closed already
+func beginTx(db *buntdb.DB, writable bool) (*buntdb.Tx, error) {
 	tx, err := db.Begin(writable)
+	if err != nil {
+		return nil, fmt.Errorf("could not begin a transaction (writable=%t): %w", writable, err)
+	}
+	return tx, nil
+}
+
+func mustBeginTx(db *buntdb.DB, writable bool) *buntdb.Tx {
+	tx, err := beginTx(db, writable)
 	if err != nil {
 		panic(fmt.Errorf("mustBeginTx(%t) failed: %v", writable, err))
 	}
-- 
2.43.0


From 7ccdafb8c8514efab586447f3b7baaa79f4311a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 59/62] fix: scanner: stop as soon as the context is done

---
 pkg/storage/chunkfs/scanner.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/storage/chunkfs/scanner.go b/pkg/storage/chunkfs/scanner.go
index 9ac3528..5e7e47d 100644
--- a/pkg/storage/chunkfs/scanner.go
+++ b/pkg/storage/chunkfs/scanner.go
@@ -132,6 +132,9 @@ func (s *Scanner) watcherWithF(ctx context.Context, f func(ctx context.Context,
 			if !fi.IsDir() {
 				continue
 			}
+			if ctx.Err() != nil {
+				break
+			}
 			sema <- struct{}{}
 			wg.Add(1)
 			go func(dir string) {
@@ -143,6 +146,10 @@ func (s *Scanner) watcherWithF(ctx context.Context, f func(ctx context.Context,
 			}(filepath.Join(s.cfg.DataPath, fi.Name()))
 		}
 		wg.Wait()
+		if ctx.Err() != nil {
+			// the scan may take longer than the timeout, so check whether everything is stopped already
+			return
+		}
 		diff := time.Now().Sub(start)
 		if diff < s.cfg.GlobalSyncTimeout {
 			select {
@@ -223,6 +230,9 @@ func (s *Scanner) sweep(ctx context.Context, dir string, sis scanInfos) {
 	})
 	swept := 0
 	for _, si := range csis {
+		if ctx.Err() != nil {
+			break
+		}
 		err := s.Replicator.DeleteChunk(ctx, si.ID, RFRemoteSync)
 		if err != nil {
 			s.logger.Debugf("could not sweep chunk %s: %s", si.ID, err)
@@ -240,6 +250,9 @@ func (s *Scanner) sweep(ctx context.Context, dir string, sis scanInfos) {
 
 func (s *Scanner) replicate(ctx context.Context, sis scanInfos) {
 	for _, si := range sis {
+		if ctx.Err() != nil {
+			break
+		}
 		now := time.Now()
 		if now.Sub(si.Mtime) < s.cfg.RemoteSyncThreshold || (si.SyncTime != nil && si.SyncTime.After(si.Mtime)) {
 			// no replication is needed
-- 
2.43.0


From 72b10e0dc2f72b64a8daa61e5811a9288a4242b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:15 +0000
Subject: [PATCH 60/62] fix: config: accept a .json file whatever the case of
 the extension

---
 golibs/config/enricher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/config/enricher.go b/golibs/config/enricher.go
index 1f2360a..577b6c6 100644
--- a/golibs/config/enricher.go
+++ b/golibs/config/enricher.go
@@ -137,7 +137,7 @@ func (e *enricher[T]) LoadFromFile(fileName string) error {
 	switch {
 	case strings.HasSuffix(fn, ".yaml"):
 		return e.LoadFromYAMLFile(fileName)
-	case strings.HasSuffix(fileName, ".json"):
+	case strings.HasSuffix(fn, ".json"):
 		return e.LoadFromJSONFile(fileName)
 	default:
 		return fmt.Errorf("cannot recognize file format %s, expecting .json or .yaml: %w", fileName, errors.ErrInvalid)
-- 
2.43.0


From 7bc6d7532c3e8976d551bc0d25c3ec1f64d286db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:26 +0000
Subject: [PATCH 61/62] fix: config: a text option may hold control characters

---
 golibs/config/enricher.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/golibs/config/enricher.go b/golibs/config/enricher.go
index 577b6c6..b8e0c2f 100644
--- a/golibs/config/enricher.go
+++ b/golibs/config/enricher.go
@@ -19,7 +19,6 @@ import (
 	"github.com/solarisdb/solaris/golibs/logging"
 	"os"
 	"reflect"
-	"strconv"
 	"strings"
 
 	"github.com/ghodss/yaml"
@@ -362,7 +361,12 @@ func setFieldValueByString(field reflect.Value, s string) error {
 
 	obj := reflect.New(field.Type()).Interface()
 	if ifStringUnderlying(field.Type()) && !isQuoted(s) {
-		s = strconv.Quote(s)
+		// the Go quoting is not always a JSON one (control characters)
+		buf, err := json.Marshal(s)
+		if err != nil {
+			return err
+		}
+		s = string(buf)
 	}
 
 	err := json.Unmarshal([]byte(s), obj)
-- 
2.43.0


From 96b9c2c2709ca6819efb7b8ba02eccd659f435e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 62/62] fix: config: an optional number set to 0 in the file is
 not ignored

---
 golibs/config/enricher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/golibs/config/enricher.go b/golibs/config/enricher.go
index b8e0c2f..6dd1138 100644
--- a/golibs/config/enricher.go
+++ b/golibs/config/enricher.go
@@ -252,6 +252,11 @@ func (e *enricher[T]) applyValues(other, target reflect.Value) error {
 		if target.IsNil() {
 			target.Set(reflect.New(target.Type().Elem()))
 		}
+		if other.Type().Elem().Kind() != reflect.Struct {
+			// the pointer is not zero, so its value is provided, even if the value is a zero one
+			target.Elem().Set(other.Elem())
+			return nil
+		}
 		return e.applyValues(other.Elem(), target.Elem())
 	}
 	if other.Type().Kind() != reflect.Struct {
-- 
2.43.0

