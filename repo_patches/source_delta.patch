From 07bda1f42718fc5d7f144c1a38ac6cb9397d7606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:07 +0000
Subject: [PATCH 001/110] fix: report integer intervals without any integer as
 empty

---
 src/interval.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interval.c b/src/interval.c
index cabc912..9c3da08 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -7,11 +7,17 @@ ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
 	// Empty ranges
 	// [l,u] when l> u; ]l,u] when l>=u
 	// [l,u[ when l>=u; ]l,u[ when l>=u
+	// ]l,u[ when l+1 == u over integers
 	if (interval->type == CCS_NUMERIC_TYPE_INT) {
 		if (interval->upper_included && interval->lower_included ?
 			    interval->lower.i > interval->upper.i :
 			    interval->lower.i >= interval->upper.i) {
 			*empty_ret = CCS_TRUE;
+		} else if (
+			!interval->upper_included &&
+			!interval->lower_included &&
+			interval->lower.i + 1 == interval->upper.i) {
+			*empty_ret = CCS_TRUE;
 		} else
 			*empty_ret = CCS_FALSE;
 	} else {
-- 
2.43.0


From 49c817457139a0ab74d7df326aa0ae98953cd595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:35 +0000
Subject: [PATCH 002/110] fix: keep the included bound in interval unions

---
 src/interval.c | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/interval.c b/src/interval.c
index 9c3da08..8ce969c 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -68,6 +68,45 @@ ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
 		}                                                              \
 	}
 
+/* on equal bounds the union keeps the included one */
+#define UNION_MAX(l1, li1, l2, li2, l, li)                                     \
+	{                                                                      \
+		if (l1 > l2) {                                                 \
+			l  = l1;                                               \
+			li = li1;                                              \
+		} else if (l2 > l1) {                                          \
+			l  = l2;                                               \
+			li = li2;                                              \
+		} else {                                                       \
+			if (li2) {                                             \
+				l  = l2;                                       \
+				li = li2;                                      \
+			} else {                                               \
+				l  = l1;                                       \
+				li = li1;                                      \
+			}                                                      \
+		}                                                              \
+	}
+
+#define UNION_MIN(l1, li1, l2, li2, l, li)                                     \
+	{                                                                      \
+		if (l1 < l2) {                                                 \
+			l  = l1;                                               \
+			li = li1;                                              \
+		} else if (l2 < l1) {                                          \
+			l  = l2;                                               \
+			li = li2;                                              \
+		} else {                                                       \
+			if (li2) {                                             \
+				l  = l2;                                       \
+				li = li2;                                      \
+			} else {                                               \
+				l  = l1;                                       \
+				li = li1;                                      \
+			}                                                      \
+		}                                                              \
+	}
+
 ccs_result_t
 ccs_interval_intersect(
 	ccs_interval_t *interval1,
@@ -118,21 +157,21 @@ ccs_interval_union(
 		CCS_RESULT_ERROR_INVALID_TYPE);
 	if (interval1->type == CCS_NUMERIC_TYPE_FLOAT) {
 		interval_res->type = CCS_NUMERIC_TYPE_FLOAT;
-		MERGE_MIN(
+		UNION_MIN(
 			interval1->lower.f, interval1->lower_included,
 			interval2->lower.f, interval2->lower_included,
 			interval_res->lower.f, interval_res->lower_included);
-		MERGE_MAX(
+		UNION_MAX(
 			interval1->upper.f, interval1->upper_included,
 			interval2->upper.f, interval2->upper_included,
 			interval_res->upper.f, interval_res->upper_included);
 	} else {
 		interval_res->type = CCS_NUMERIC_TYPE_INT;
-		MERGE_MIN(
+		UNION_MIN(
 			interval1->lower.i, interval1->lower_included,
 			interval2->lower.i, interval2->lower_included,
 			interval_res->lower.i, interval_res->lower_included);
-		MERGE_MAX(
+		UNION_MAX(
 			interval1->upper.i, interval1->upper_included,
 			interval2->upper.i, interval2->upper_included,
 			interval_res->upper.i, interval_res->upper_included);
-- 
2.43.0


From 24cb5cf1344a46fa0504e84ad7b57ac8d015acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:14 +0000
Subject: [PATCH 003/110] fix: return the keys from ccs_map_get_keys

---
 src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index b10d5d0..91f21ae 100644
--- a/src/map.c
+++ b/src/map.c
@@ -294,7 +294,7 @@ ccs_map_get_keys(
 		_ccs_map_datum_t *current = NULL, *tmp;
 		size_t            i       = 0;
 		HASH_ITER(hh, map->data->map, current, tmp)
-		keys[i++] = current->value;
+		keys[i++] = current->key;
 		for (i = num_entries; i < num_keys; i++)
 			keys[i] = ccs_none;
 	}
-- 
2.43.0


From 8ae86ec97e7c1bab00e2306f2fd958a2478cdb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:28 +0000
Subject: [PATCH 004/110] fix: retain objects that were previously mapped by
 identifier

---
 src/map.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index 91f21ae..432d144 100644
--- a/src/map.c
+++ b/src/map.c
@@ -207,7 +207,11 @@ ccs_map_set(ccs_map_t map, ccs_datum_t key, ccs_datum_t value)
 	_ccs_map_datum_t *entry     = NULL;
 	HASH_FIND(hh, d->map, &key, sizeof(ccs_datum_t), old_entry);
 	if (old_entry)
-		if (!_datum_cmp(&value, &old_entry->value))
+		if (!_datum_cmp(&value, &old_entry->value) &&
+		    !((key.flags ^ old_entry->key.flags) &
+		      CCS_DATUM_FLAG_ID) &&
+		    !((value.flags ^ old_entry->value.flags) &
+		      CCS_DATUM_FLAG_ID))
 			return CCS_RESULT_SUCCESS;
 
 	CCS_VALIDATE_ERR_GOTO(res, _ccs_map_check_datum(key, &sz, &sz1), err);
-- 
2.43.0


From 4070b2f3ce71aa34a12ec2e2b1b48ea84e1c9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:24 +0000
Subject: [PATCH 005/110] fix: compare floats by value in expressions

---
 src/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expression.c b/src/expression.c
index 028c660..dc5749b 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -363,6 +363,10 @@ _ccs_datum_test_equal_generic(ccs_datum_t *a, ccs_datum_t *b, ccs_bool_t *equal)
 		case CCS_DATA_TYPE_NONE:
 			*equal = CCS_TRUE;
 			break;
+		case CCS_DATA_TYPE_FLOAT:
+			*equal = (a->value.f == b->value.f) ? CCS_TRUE :
+							      CCS_FALSE;
+			break;
 		default:
 			*equal = memcmp(&(a->value), &(b->value),
 					sizeof(ccs_value_t)) == 0 ?
-- 
2.43.0


From c6982c02277c0f9dfe75100f381e18b6da742261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:24 +0000
Subject: [PATCH 006/110] fix: inactive list elements make membership inactive,
 not an error

---
 src/expression.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expression.c b/src/expression.c
index dc5749b..7a2ae45 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -729,8 +729,10 @@ _ccs_expr_in_eval(
 		ccs_datum_t right;
 		CCS_VALIDATE(ccs_expression_list_eval_node(
 			data->nodes[1], context, values, i, &right));
-		if (right.type == CCS_DATA_TYPE_INACTIVE)
+		if (right.type == CCS_DATA_TYPE_INACTIVE) {
 			inactive = CCS_TRUE;
+			continue;
+		}
 		CHECK_PARAMETERS(data->nodes[0], right, htl);
 		ccs_bool_t equal;
 		_ccs_datum_test_equal_generic(&left, &right, &equal);
-- 
2.43.0


From 4d3d72a0aac62439107a56df34473a9a4b9ba360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:39 +0000
Subject: [PATCH 007/110] fix: do not trap on INT_MIN / -1 and INT_MIN % -1

---
 src/expression.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/expression.c b/src/expression.c
index 7a2ae45..cef367c 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -887,6 +887,10 @@ _ccs_expr_divide_eval(
 			CCS_REFUTE(
 				right.value.i == 0,
 				CCS_RESULT_ERROR_INVALID_VALUE);
+			CCS_REFUTE(
+				right.value.i == -1 &&
+					left.value.i == CCS_INT_MIN,
+				CCS_RESULT_ERROR_INVALID_VALUE);
 			*result = ccs_int(left.value.i / right.value.i);
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
@@ -938,7 +942,10 @@ _ccs_expr_modulo_eval(
 			CCS_REFUTE(
 				right.value.i == 0,
 				CCS_RESULT_ERROR_INVALID_VALUE);
-			*result = ccs_int(left.value.i % right.value.i);
+			*result = ccs_int(
+				right.value.i == -1 ?
+					0 :
+					left.value.i % right.value.i);
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
 			CCS_REFUTE(
-- 
2.43.0


From 592b83ad115cc3ccc9f33259509e57c75d17c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:15 +0000
Subject: [PATCH 008/110] fix: do not truncate positions to 32 bits

---
 src/configuration_space.c | 10 +++++-----
 src/context_internal.h    |  4 ++--
 src/objective_space.c     |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 6392af3..729cf21 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -705,7 +705,7 @@ ccs_configuration_space_get_parameter_distribution(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)index);
+			index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*distribution_ret = wrapper->distribution->distribution;
 	*index_ret        = wrapper->distribution_index;
@@ -1234,7 +1234,7 @@ _recompute_graph(ccs_configuration_space_t configuration_space)
 	ccs_result_t err = CCS_RESULT_SUCCESS;
 	for (size_t index = 0; index < utarray_len(array); index++) {
 		wrapper = (_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
-			array, (unsigned int)index);
+			array, index);
 		if (!wrapper->condition)
 			continue;
 		size_t count;
@@ -1317,7 +1317,7 @@ ccs_configuration_space_set_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	CCS_REFUTE(wrapper->condition, CCS_RESULT_ERROR_INVALID_PARAMETER);
 	ccs_result_t err;
@@ -1345,7 +1345,7 @@ ccs_configuration_space_get_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = wrapper->condition;
 	return CCS_RESULT_SUCCESS;
@@ -1448,7 +1448,7 @@ ccs_configuration_space_get_forbidden_clause(
 	CCS_CHECK_PTR(expression_ret);
 	ccs_expression_t *p_expr = (ccs_expression_t *)utarray_eltptr(
 		configuration_space->data->forbidden_clauses,
-		(unsigned int)index);
+		index);
 	CCS_REFUTE(!p_expr, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = *p_expr;
 	return CCS_RESULT_SUCCESS;
diff --git a/src/context_internal.h b/src/context_internal.h
index 3fa6a0b..86940e9 100644
--- a/src/context_internal.h
+++ b/src/context_internal.h
@@ -77,7 +77,7 @@ _ccs_context_get_parameter(
 	CCS_CHECK_PTR(parameter_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*parameter_ret = wrapper->parameter;
 	return CCS_RESULT_SUCCESS;
@@ -184,7 +184,7 @@ _ccs_context_validate_value(
 	CCS_CHECK_PTR(value_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	ccs_bool_t valid;
 	CCS_VALIDATE(ccs_parameter_validate_value(
diff --git a/src/objective_space.c b/src/objective_space.c
index 0355ea6..1839076 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -544,7 +544,7 @@ ccs_objective_space_get_objective(
 	CCS_CHECK_PTR(expression_ret);
 	CCS_CHECK_PTR(type_ret);
 	_ccs_objective_t *p_obj = (_ccs_objective_t *)utarray_eltptr(
-		objective_space->data->objectives, (unsigned int)index);
+		objective_space->data->objectives, index);
 	CCS_REFUTE(!p_obj, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = p_obj->expression;
 	*type_ret       = p_obj->type;
-- 
2.43.0


From a1fca5423a50a04c1d0540633028522ef1fd72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 009/110] fix: regenerate the dependency graph before building
 the default configuration

---
 src/configuration_space.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 729cf21..82f7935 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -866,6 +866,8 @@ ccs_configuration_space_get_default_configuration(
 	CCS_CHECK_PTR(configuration_ret);
 	ccs_result_t        err;
 	ccs_configuration_t config;
+	if (!configuration_space->data->graph_ok)
+		CCS_VALIDATE(_generate_constraints(configuration_space));
 	CCS_VALIDATE(ccs_create_configuration(
 		configuration_space, 0, NULL, &config));
 	UT_array *array = configuration_space->data->parameters;
-- 
2.43.0


From 186f3bf27625c58277694f36944f1338de9c14e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:44 +0000
Subject: [PATCH 010/110] fix: release the space when a configuration's values
 are refused

---
 src/configuration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/configuration.c b/src/configuration.c
index d558a05..82663c0 100644
--- a/src/configuration.c
+++ b/src/configuration.c
@@ -130,10 +130,12 @@ ccs_create_configuration(
 						configuration_space, i,
 						values[i],
 						config->data->values + i),
-					errmem);
+					errcs);
 	}
 	*configuration_ret = config;
 	return CCS_RESULT_SUCCESS;
+errcs:
+	ccs_release_object(configuration_space);
 errmem:
 	free((void *)mem);
 	return err;
-- 
2.43.0


From c5edf25aa468366bbe51fd6e591c41148dc82eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:12 +0000
Subject: [PATCH 011/110] fix: compare empty intervals as empty sets

---
 src/interval.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/interval.c b/src/interval.c
index 8ce969c..962c219 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -191,7 +191,12 @@ ccs_interval_equal(
 	CCS_REFUTE(
 		interval1->type != interval2->type,
 		CCS_RESULT_ERROR_INVALID_TYPE);
-	if (interval1->type == CCS_NUMERIC_TYPE_FLOAT) {
+	ccs_bool_t empty1, empty2;
+	CCS_VALIDATE(ccs_interval_empty(interval1, &empty1));
+	CCS_VALIDATE(ccs_interval_empty(interval2, &empty2));
+	if (empty1 || empty2) {
+		*equal_res = (empty1 && empty2) ? CCS_TRUE : CCS_FALSE;
+	} else if (interval1->type == CCS_NUMERIC_TYPE_FLOAT) {
 		*equal_res =
 			(interval1->lower.f == interval2->lower.f &&
 			 interval1->upper.f == interval2->upper.f &&
-- 
2.43.0


From 37780dc169ff1f7a21271c51fdbd92417e95bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:50 +0000
Subject: [PATCH 012/110] fix: keep uniform samples inside their bounds and
 support wide integer ranges

---
 src/distribution_uniform.c | 105 ++++++++++++++++++++++++++++++-------
 1 file changed, 87 insertions(+), 18 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index 2b1f06c..12c74f5 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -181,6 +181,52 @@ static _ccs_distribution_ops_t _ccs_distribution_uniform_ops = {
 	&_ccs_distribution_uniform_strided_samples,
 	&_ccs_distribution_uniform_soa_samples};
 
+/* uniform in [0, n), also when n exceeds the range of the generator */
+static uint64_t
+_ccs_distribution_uniform_draw_int(gsl_rng *grng, uint64_t n)
+{
+	const uint64_t range = gsl_rng_max(grng) - gsl_rng_min(grng);
+	if (n <= range)
+		return gsl_rng_uniform_int(grng, n);
+	const uint64_t num_blocks = (n - 1) / range + 1;
+	uint64_t       base, offset;
+	do {
+		base = _ccs_distribution_uniform_draw_int(grng, num_blocks) *
+		       range;
+		offset = gsl_rng_uniform_int(grng, range);
+	} while (offset > n - 1 - base);
+	return base + offset;
+}
+
+/* rounding must not push values out of [lower, upper) */
+static inline ccs_float_t
+_ccs_distribution_uniform_clamp_float(
+	ccs_float_t value,
+	ccs_float_t lower,
+	ccs_float_t upper,
+	ccs_float_t quantization)
+{
+	if (value < lower)
+		return lower;
+	if (value >= upper)
+		return quantization != 0.0 ? value - quantization :
+					     nextafter(upper, lower);
+	return value;
+}
+
+static inline ccs_int_t
+_ccs_distribution_uniform_clamp_int(
+	ccs_float_t value,
+	ccs_int_t   lower,
+	ccs_int_t   upper)
+{
+	if (value >= (ccs_float_t)upper)
+		return upper - 1;
+	if ((ccs_int_t)value < lower)
+		return lower;
+	return (ccs_int_t)value;
+}
+
 static ccs_result_t
 _ccs_distribution_uniform_get_bounds(
 	_ccs_distribution_data_t *data,
@@ -220,6 +266,7 @@ _ccs_distribution_uniform_strided_samples(
 	const ccs_scale_type_t   scale_type     = d->scale_type;
 	const ccs_numeric_t      quantization   = d->quantization;
 	const ccs_numeric_t      lower          = d->lower;
+	const ccs_numeric_t      upper          = d->upper;
 	const ccs_numeric_t      internal_lower = d->internal_lower;
 	const ccs_numeric_t      internal_upper = d->internal_upper;
 	const int                quantize       = d->quantize;
@@ -252,12 +299,20 @@ _ccs_distribution_uniform_strided_samples(
 		else
 			for (i = 0; i < num_values; i++)
 				values[i * stride].f += lower.f;
+		for (i = 0; i < num_values; i++)
+			values[i * stride].f =
+				_ccs_distribution_uniform_clamp_float(
+					values[i * stride].f, lower.f, upper.f,
+					quantization.f);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i * stride].i =
+					_ccs_distribution_uniform_clamp_int(
+						exp(gsl_ran_flat(
+							grng, internal_lower.f,
+							internal_upper.f)),
+						lower.i, upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
@@ -269,18 +324,21 @@ _ccs_distribution_uniform_strided_samples(
 						lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = gsl_rng_uniform_int(
-					grng, internal_upper.i);
+				values[i * stride].i =
+					_ccs_distribution_uniform_draw_int(
+						grng, internal_upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
 					values[i * stride].i =
-						values[i * stride].i *
+						(uint64_t)values[i * stride].i *
 							quantization.i +
 						lower.i;
 			else
 				for (i = 0; i < num_values; i++)
-					values[i * stride].i += lower.i;
+					values[i * stride].i =
+						(uint64_t)values[i * stride].i +
+						lower.i;
 		}
 	}
 	return CCS_RESULT_SUCCESS;
@@ -300,6 +358,7 @@ _ccs_distribution_uniform_samples(
 	const ccs_scale_type_t   scale_type     = d->scale_type;
 	const ccs_numeric_t      quantization   = d->quantization;
 	const ccs_numeric_t      lower          = d->lower;
+	const ccs_numeric_t      upper          = d->upper;
 	const ccs_numeric_t      internal_lower = d->internal_lower;
 	const ccs_numeric_t      internal_upper = d->internal_upper;
 	const int                quantize       = d->quantize;
@@ -329,12 +388,18 @@ _ccs_distribution_uniform_samples(
 		else
 			for (i = 0; i < num_values; i++)
 				values[i].f += lower.f;
+		for (i = 0; i < num_values; i++)
+			values[i].f = _ccs_distribution_uniform_clamp_float(
+				values[i].f, lower.f, upper.f, quantization.f);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i].i =
+					_ccs_distribution_uniform_clamp_int(
+						exp(gsl_ran_flat(
+							grng, internal_lower.f,
+							internal_upper.f)),
+						lower.i, upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
@@ -344,17 +409,20 @@ _ccs_distribution_uniform_samples(
 						      lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = gsl_rng_uniform_int(
-					grng, internal_upper.i);
+				values[i].i =
+					_ccs_distribution_uniform_draw_int(
+						grng, internal_upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
 					values[i].i =
-						values[i].i * quantization.i +
+						(uint64_t)values[i].i *
+							quantization.i +
 						lower.i;
 			else
 				for (i = 0; i < num_values; i++)
-					values[i].i += lower.i;
+					values[i].i = (uint64_t)values[i].i +
+						      lower.i;
 		}
 	}
 	return CCS_RESULT_SUCCESS;
@@ -397,7 +465,8 @@ ccs_create_uniform_distribution(
 			 (scale_type == CCS_SCALE_TYPE_LOGARITHMIC &&
 			  lower.i <= 0) ||
 			 quantization.i < 0 ||
-			 quantization.i > upper.i - lower.i),
+			 (uint64_t)quantization.i >
+				 (uint64_t)upper.i - (uint64_t)lower.i),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_FLOAT &&
@@ -451,10 +520,10 @@ ccs_create_uniform_distribution(
 			distrib_data->internal_upper.f = log(upper.i);
 		} else {
 			distrib_data->internal_lower.i = 0;
-			distrib_data->internal_upper.i = upper.i - lower.i;
+			uint64_t range = (uint64_t)upper.i - (uint64_t)lower.i;
 			if (quantization.i != 0)
-				distrib_data->internal_upper.i /=
-					quantization.i;
+				range /= (uint64_t)quantization.i;
+			distrib_data->internal_upper.i = (ccs_int_t)range;
 		}
 	}
 	distrib->data     = (_ccs_distribution_data_t *)distrib_data;
-- 
2.43.0


From 3c773566501f5ba9d875a3df984a03e35250872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:13 +0000
Subject: [PATCH 013/110] fix: do not use uninitialized columns in mixture soa
 samples

---
 src/distribution_mixture.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index dc11674..edd2708 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -435,8 +435,7 @@ _ccs_distribution_mixture_soa_samples(
 		ccs_int_t   index = _ccs_dichotomic_search(
                         d->num_distributions, d->weights, rnd);
 		for (size_t j = 0; j < dim; j++)
-			if (values[j])
-				p_values[j] = values[j] + i;
+			p_values[j] = values[j] ? values[j] + i : NULL;
 		CCS_VALIDATE(ccs_distribution_get_ops(d->distributions[index])
 				     ->soa_samples(
 					     d->distributions[index]->data, rng,
-- 
2.43.0


From 58684e8377a7d0817804b09fea9144ab2f6cc1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:58 +0000
Subject: [PATCH 014/110] fix: size the temporary bounds of a mixture by
 dimension

---
 src/distribution_mixture.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index edd2708..d0bbbe4 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -236,14 +236,14 @@ ccs_create_mixture_distribution(
 	cur_mem = mem;
 
 	tmp_mem = (uintptr_t)calloc(
-		1, sizeof(ccs_interval_t) * num_distributions +
+		1, sizeof(ccs_interval_t) * dimension +
 			   sizeof(ccs_numeric_type_t) * dimension);
 	CCS_REFUTE_ERR_GOTO(
 		err, !tmp_mem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
 	bounds_tmp = (ccs_interval_t *)tmp_mem;
 	data_types_tmp =
 		(ccs_numeric_type_t
-			 *)(tmp_mem + sizeof(ccs_interval_t) * num_distributions);
+			 *)(tmp_mem + sizeof(ccs_interval_t) * dimension);
 
 	distrib = (ccs_distribution_t)cur_mem;
 	cur_mem += sizeof(struct _ccs_distribution_s);
-- 
2.43.0


From 255cca4b34034eab8631ee6f1a3e4ea42ea4646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:09 +0000
Subject: [PATCH 015/110] fix: clamp cumulated weights and refuse infinite ones

---
 src/distribution_internal.h | 10 ++++++++--
 src/distribution_mixture.c  | 13 ++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/distribution_internal.h b/src/distribution_internal.h
index a4a4c52..1d3fd15 100644
--- a/src/distribution_internal.h
+++ b/src/distribution_internal.h
@@ -113,7 +113,9 @@ _ccs_distribution_roulette_validate_areas(
 		CCS_REFUTE(areas[i] < 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
 		sum_areas += areas[i];
 	}
-	CCS_REFUTE(sum_areas == 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_REFUTE(
+		sum_areas == 0.0 || !isfinite(sum_areas),
+		CCS_RESULT_ERROR_INVALID_VALUE);
 	ccs_float_t sum_areas_inverse = 1.0 / sum_areas;
 	CCS_REFUTE(
 		isnan(sum_areas_inverse) || !isfinite(sum_areas_inverse),
@@ -132,8 +134,12 @@ _ccs_distribution_roulette_normalize_areas(
 	roulette_areas[0] = 0.0;
 	for (size_t i = 1; i <= num_areas; i++)
 		roulette_areas[i] = roulette_areas[i - 1] + areas[i - 1];
-	for (size_t i = 1; i <= num_areas; i++)
+	for (size_t i = 1; i <= num_areas; i++) {
 		roulette_areas[i] *= sum_areas_inverse;
+		// the inverse is rounded
+		if (roulette_areas[i] > 1.0)
+			roulette_areas[i] = 1.0;
+	}
 	roulette_areas[num_areas] = 1.0;
 }
 
diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index d0bbbe4..c6e717c 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -211,7 +211,9 @@ ccs_create_mixture_distribution(
 		CCS_REFUTE(weights[i] < 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
 		weights_sum += weights[i];
 	}
-	CCS_REFUTE(weights_sum == 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_REFUTE(
+		weights_sum == 0.0 || !isfinite(weights_sum),
+		CCS_RESULT_ERROR_INVALID_VALUE);
 	ccs_float_t weights_sum_inverse = 1.0 / weights_sum;
 	CCS_REFUTE(
 		isnan(weights_sum_inverse) || !isfinite(weights_sum_inverse),
@@ -307,13 +309,14 @@ ccs_create_mixture_distribution(
 	}
 
 	distrib_data->weights[0] = 0.0;
-	for (i = 1; i <= num_distributions; i++)
+	for (i = 1; i <= num_distributions; i++) {
 		distrib_data->weights[i] = distrib_data->weights[i - 1] +
 					   weights[i - 1] * weights_sum_inverse;
+		// rounding errors accumulate
+		if (distrib_data->weights[i] > 1.0)
+			distrib_data->weights[i] = 1.0;
+	}
 	distrib_data->weights[num_distributions] = 1.0;
-	CCS_REFUTE_ERR_GOTO(
-		err, 1.0 < distrib_data->weights[num_distributions - 1],
-		CCS_RESULT_ERROR_INVALID_VALUE, memory);
 	for (i = 0; i < num_distributions; i++) {
 		CCS_VALIDATE_ERR_GOTO(
 			err, ccs_retain_object(distributions[i]), distrib);
-- 
2.43.0


From a4a169ff920ebca7d5518889a9878a69d978df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:49 +0000
Subject: [PATCH 016/110] fix: validate numerical bounds, step and default
 exactly

---
 src/distribution_uniform.c | 10 +++++-----
 src/parameter_numerical.c  | 11 ++++++-----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index 12c74f5..6628075 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -470,11 +470,11 @@ ccs_create_uniform_distribution(
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_FLOAT &&
-			(lower.f >= upper.f ||
-			 (scale_type == CCS_SCALE_TYPE_LOGARITHMIC &&
-			  lower.f <= 0.0) ||
-			 quantization.f < 0.0 ||
-			 quantization.f > upper.f - lower.f),
+			!(lower.f < upper.f &&
+			  (scale_type != CCS_SCALE_TYPE_LOGARITHMIC ||
+			   lower.f > 0.0) &&
+			  quantization.f >= 0.0 &&
+			  quantization.f <= upper.f - lower.f),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	uintptr_t mem = (uintptr_t)calloc(
 		1, sizeof(struct _ccs_distribution_s) +
diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index 645b518..c51232a 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -290,16 +290,17 @@ ccs_create_numerical_parameter(
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_INT &&
 			(lower.i >= upper.i || quantization.i < 0 ||
-			 quantization.i > upper.i - lower.i ||
+			 (uint64_t)quantization.i >
+				 (uint64_t)upper.i - (uint64_t)lower.i ||
 			 default_value.i < lower.i ||
 			 default_value.i >= upper.i),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_FLOAT &&
-			(lower.f >= upper.f || quantization.f < 0.0 ||
-			 quantization.f > upper.f - lower.f ||
-			 default_value.f < lower.f ||
-			 default_value.f >= upper.f),
+			!(lower.f < upper.f && quantization.f >= 0.0 &&
+			  quantization.f <= upper.f - lower.f &&
+			  default_value.f >= lower.f &&
+			  default_value.f < upper.f),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	uintptr_t mem = (uintptr_t)calloc(
 		1, sizeof(struct _ccs_parameter_s) +
-- 
2.43.0


From da22c185d0b6d2be2d933ace66bd43d1a855b80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:49 +0000
Subject: [PATCH 017/110] fix: clear the extra entries of possible values
 arrays

---
 src/parameter_categorical.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index beefe62..70a2eac 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -405,7 +405,7 @@ _ccs_categorical_parameter_get_values(
 			CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < d->num_possible_values; i++)
 			possible_values[i] = d->possible_values[i].d;
-		for (size_t i = num_possible_values; i < d->num_possible_values;
+		for (size_t i = d->num_possible_values; i < num_possible_values;
 		     i++)
 			possible_values[i] = ccs_none;
 	}
-- 
2.43.0


From fa59ff4396cce251b715456243fc7b0d13372d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:49 +0000
Subject: [PATCH 018/110] fix: release the sampling buffer when sampling is
 unsuccessful

---
 src/parameter_categorical.c | 6 +++---
 src/parameter_numerical.c   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index 70a2eac..94552e4 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -178,9 +178,9 @@ _ccs_parameter_categorical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t     buff_sz = (num_values - found) * coeff;
 			ccs_int_t *oldvs   = vs;
 			vs                 = (ccs_int_t *)realloc(
diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index c51232a..a548b1e 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -160,9 +160,9 @@ _ccs_parameter_numerical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t         buff_sz = (num_values - found) * coeff;
 			ccs_numeric_t *oldvs   = vs;
 			vs                     = (ccs_numeric_t *)realloc(
-- 
2.43.0


From ce8abe470eb79129aca1ab0aa82026fddeae81bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:36 +0000
Subject: [PATCH 019/110] fix: refuse multidimensional distributions for a
 single parameter

---
 src/parameter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parameter.c b/src/parameter.c
index 55d8137..83836c9 100644
--- a/src/parameter.c
+++ b/src/parameter.c
@@ -125,6 +125,9 @@ ccs_parameter_sample(
 	CCS_CHECK_OBJ(distribution, CCS_OBJECT_TYPE_DISTRIBUTION);
 	CCS_CHECK_OBJ(rng, CCS_OBJECT_TYPE_RNG);
 	CCS_CHECK_PTR(value_ret);
+	size_t dimension;
+	CCS_VALIDATE(ccs_distribution_get_dimension(distribution, &dimension));
+	CCS_REFUTE(dimension != 1, CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
 	_ccs_parameter_ops_t *ops = ccs_parameter_get_ops(parameter);
 	CCS_VALIDATE(
 		ops->samples(parameter->data, distribution, rng, 1, value_ret));
@@ -143,6 +146,9 @@ ccs_parameter_samples(
 	CCS_CHECK_OBJ(distribution, CCS_OBJECT_TYPE_DISTRIBUTION);
 	CCS_CHECK_OBJ(rng, CCS_OBJECT_TYPE_RNG);
 	CCS_CHECK_ARY(num_values, values);
+	size_t dimension;
+	CCS_VALIDATE(ccs_distribution_get_dimension(distribution, &dimension));
+	CCS_REFUTE(dimension != 1, CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
 	if (!num_values)
 		return CCS_RESULT_SUCCESS;
 	_ccs_parameter_ops_t *ops = ccs_parameter_get_ops(parameter);
-- 
2.43.0


From c74323a7f52e12c47394e0d7ecd371ebc74fdd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:19 +0000
Subject: [PATCH 020/110] fix: release the spare configuration when sampling is
 unsuccessful

---
 src/configuration_space.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 82f7935..7aa8566 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -1114,9 +1114,9 @@ ccs_configuration_space_samples(
 			config                  = NULL;
 		}
 	}
-	CCS_REFUTE(
-		count < num_configurations,
-		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+	CCS_REFUTE_ERR_GOTO(
+		err, count < num_configurations,
+		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errc);
 	return CCS_RESULT_SUCCESS;
 errc:
 	ccs_release_object(config);
-- 
2.43.0


From da790198aac7fb7922e51c9ffc90fbf9d35bffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:20 +0000
Subject: [PATCH 021/110] fix: refuse undersized arrays when getting objective
 values

---
 src/evaluation.c          | 2 +-
 src/features_evaluation.c | 2 +-
 src/tree_evaluation.c     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluation.c b/src/evaluation.c
index acabf57..4201894 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -359,7 +359,7 @@ ccs_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index 7d2c103..e64b786 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -402,7 +402,7 @@ ccs_features_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index c78232f..614e32b 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -364,7 +364,7 @@ ccs_tree_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
-- 
2.43.0


From ee11c98c03d827e318add62d97e713dc9fbd068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:55 +0000
Subject: [PATCH 022/110] fix: do not order undefined objective values

---
 src/evaluation.c          | 5 ++++-
 src/features_evaluation.c | 5 ++++-
 src/tree_evaluation.c     | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/evaluation.c b/src/evaluation.c
index 4201894..2b721ee 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -1,6 +1,7 @@
 #include "cconfigspace_internal.h"
 #include "evaluation_internal.h"
 #include "configuration_internal.h"
+#include <math.h>
 #include <string.h>
 
 static inline _ccs_evaluation_ops_t *
@@ -467,7 +468,9 @@ ccs_evaluation_compare(
 		// types.
 		if ((values[0].type != CCS_DATA_TYPE_INT &&
 		     values[0].type != CCS_DATA_TYPE_FLOAT) ||
-		    values[0].type != values[1].type) {
+		    values[0].type != values[1].type ||
+		    (values[0].type == CCS_DATA_TYPE_FLOAT &&
+		     isunordered(values[0].value.f, values[1].value.f))) {
 			*result_ret = CCS_COMPARISON_NOT_COMPARABLE;
 			return CCS_RESULT_SUCCESS;
 		}
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index e64b786..86feda7 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -2,6 +2,7 @@
 #include "features_evaluation_internal.h"
 #include "configuration_internal.h"
 #include "features_internal.h"
+#include <math.h>
 #include <string.h>
 
 static inline _ccs_features_evaluation_ops_t *
@@ -521,7 +522,9 @@ ccs_features_evaluation_compare(
 			other_evaluation->data->values, values + 1));
 		if ((values[0].type != CCS_DATA_TYPE_INT &&
 		     values[0].type != CCS_DATA_TYPE_FLOAT) ||
-		    values[0].type != values[1].type) {
+		    values[0].type != values[1].type ||
+		    (values[0].type == CCS_DATA_TYPE_FLOAT &&
+		     isunordered(values[0].value.f, values[1].value.f))) {
 			*result_ret = CCS_COMPARISON_NOT_COMPARABLE;
 			return CCS_RESULT_SUCCESS;
 		}
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index 614e32b..2f969b5 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -1,6 +1,7 @@
 #include "cconfigspace_internal.h"
 #include "tree_evaluation_internal.h"
 #include "tree_configuration_internal.h"
+#include <math.h>
 #include <string.h>
 
 static inline _ccs_tree_evaluation_ops_t *
@@ -474,7 +475,9 @@ ccs_tree_evaluation_compare(
 		// types.
 		if ((values[0].type != CCS_DATA_TYPE_INT &&
 		     values[0].type != CCS_DATA_TYPE_FLOAT) ||
-		    values[0].type != values[1].type) {
+		    values[0].type != values[1].type ||
+		    (values[0].type == CCS_DATA_TYPE_FLOAT &&
+		     isunordered(values[0].value.f, values[1].value.f))) {
 			*result_ret = CCS_COMPARISON_NOT_COMPARABLE;
 			return CCS_RESULT_SUCCESS;
 		}
-- 
2.43.0


From f5484a62ef88428d7142f4819af296ac4a1c22e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:50 +0000
Subject: [PATCH 023/110] fix: keep optima that cannot be compared with a new
 evaluation

---
 src/features_tuner_random.c | 9 ++++++---
 src/tree_tuner_random.c     | 9 ++++++---
 src/tuner_random.c          | 9 ++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index ef3d602..4772a2f 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -222,9 +222,12 @@ _ccs_features_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_features_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
-						discard = 1;
-					else
+					if (err) {
+						// cannot be ordered, keep both
+						ccs_clear_thread_error();
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index ed39c99..5a3f572 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -214,9 +214,12 @@ _ccs_tree_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_tree_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
-						discard = 1;
-					else
+					if (err) {
+						// cannot be ordered, keep both
+						ccs_clear_thread_error();
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tuner_random.c b/src/tuner_random.c
index e9c072f..480c356 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -213,9 +213,12 @@ _ccs_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
-						discard = 1;
-					else
+					if (err) {
+						// cannot be ordered, keep both
+						ccs_clear_thread_error();
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
-- 
2.43.0


From b5d8a0dd146aa7ca62737014c3fed3f3cb08d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:30 +0000
Subject: [PATCH 024/110] fix: refuse tree attachments that would form a cycle

---
 src/tree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index 7c37190..687f0e3 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -271,6 +271,8 @@ ccs_tree_set_child(ccs_tree_t tree, size_t index, ccs_tree_t child)
 	CCS_REFUTE(
 		child_data->parent || child_data->index,
 		CCS_RESULT_ERROR_INVALID_TREE);
+	for (ccs_tree_t node = tree; node; node = node->data->parent)
+		CCS_REFUTE(node == child, CCS_RESULT_ERROR_INVALID_TREE);
 	CCS_VALIDATE(ccs_retain_object(child));
 
 	child_data->parent         = tree;
-- 
2.43.0


From 0e40f49b0e134dda82f5c126df5937a0e6025067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 025/110] fix: refuse undefined and infinite tree weights and
 biases

---
 src/tree.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 687f0e3..c7a57db 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -344,7 +344,8 @@ ccs_result_t
 ccs_tree_set_weight(ccs_tree_t tree, ccs_float_t weight)
 {
 	CCS_CHECK_OBJ(tree, CCS_OBJECT_TYPE_TREE);
-	CCS_REFUTE(weight < 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_REFUTE(
+		!(weight >= 0.0) || isinf(weight), CCS_RESULT_ERROR_INVALID_VALUE);
 	_ccs_tree_data_t *tree_data  = tree->data;
 	size_t            index      = tree_data->arity;
 	ccs_float_t       old_weight = tree_data->weights[index];
@@ -370,7 +371,8 @@ ccs_result_t
 ccs_tree_set_bias(ccs_tree_t tree, ccs_float_t bias)
 {
 	CCS_CHECK_OBJ(tree, CCS_OBJECT_TYPE_TREE);
-	CCS_REFUTE(bias < 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_REFUTE(
+		!(bias >= 0.0) || isinf(bias), CCS_RESULT_ERROR_INVALID_VALUE);
 	_ccs_tree_data_t *tree_data = tree->data;
 	ccs_float_t       old_bias  = tree_data->bias;
 	ccs_result_t      err       = CCS_RESULT_SUCCESS;
-- 
2.43.0


From 70e5bdc451108f0e4a006f2b8b8d25370d7d0a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:06 +0000
Subject: [PATCH 026/110] fix: clear the extra entries of tree configuration
 positions

---
 src/tree_configuration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree_configuration.c b/src/tree_configuration.c
index 4b76e1a..c009a21 100644
--- a/src/tree_configuration.c
+++ b/src/tree_configuration.c
@@ -180,6 +180,8 @@ ccs_tree_configuration_get_position(
 			position_size < size, CCS_RESULT_ERROR_INVALID_VALUE);
 		memcpy(position, configuration->data->position,
 		       size * sizeof(size_t));
+		for (size_t i = size; i < position_size; i++)
+			position[i] = 0;
 	}
 	if (position_size_ret)
 		*position_size_ret = size;
-- 
2.43.0


From 69d95b525bb4221387157c34aa56d3dce9155801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:01 +0000
Subject: [PATCH 027/110] fix: release a child that cannot be attached to a
 dynamic tree space

---
 src/tree_space_dynamic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tree_space_dynamic.c b/src/tree_space_dynamic.c
index b088829..02ac807 100644
--- a/src/tree_space_dynamic.c
+++ b/src/tree_space_dynamic.c
@@ -156,8 +156,10 @@ _ccs_tree_space_tree_get_child(
 	CCS_VALIDATE(ccs_tree_get_child(parent, index, child));
 	if (!*child) {
 		CCS_VALIDATE(child_cb(tree_space, parent, index, child));
-		CCS_VALIDATE(ccs_tree_set_child(parent, index, *child));
-		CCS_VALIDATE(ccs_release_object(*child));
+		ccs_result_t err = ccs_tree_set_child(parent, index, *child);
+		if (*child)
+			CCS_VALIDATE(ccs_release_object(*child));
+		CCS_VALIDATE(err);
 	}
 	return CCS_RESULT_SUCCESS;
 }
-- 
2.43.0


From 3dd155dd4214c6d54a1c9a80724efe277cb54d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:43 +0000
Subject: [PATCH 028/110] fix: find the default value of categorical parameters
 exactly when deserializing

---
 src/parameter_deserialize.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index c702021..3f5ef85 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -2,6 +2,7 @@
 #define _PARAMETER_DESERIALIZE_H
 #include "cconfigspace_internal.h"
 #include "parameter_internal.h"
+#include "datum_hash.h"
 
 static inline ccs_result_t
 _ccs_deserialize_bin_parameter_numerical(
@@ -78,9 +79,9 @@ _ccs_deserialize_bin_parameter_categorical(
 		end);
 	size_t default_value_index;
 	for (size_t i = 0; i < data.num_possible_values; i++)
-		if (!ccs_datum_cmp(
-			    data.common_data.default_value,
-			    data.possible_values[i])) {
+		if (!_datum_cmp(
+			    &data.common_data.default_value,
+			    data.possible_values + i)) {
 			found               = 1;
 			default_value_index = i;
 		}
-- 
2.43.0


From 949a71ade1339129dea577c94918f0f463378c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:45 +0000
Subject: [PATCH 029/110] fix: restore spaces in which an expression or a
 distribution is used several times

---
 src/configuration_space_deserialize.h | 9 ++++++---
 src/expression_deserialize.h          | 1 +
 src/objective_space_deserialize.h     | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 96b5faf..06e7467 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -31,7 +31,10 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	const char                          **buffer,
 	_ccs_object_deserialize_options_t    *opts)
 {
-	uintptr_t mem;
+	uintptr_t                         mem;
+	/* distributions are not referred to by handle, and can be shared */
+	_ccs_object_deserialize_options_t distrib_opts = *opts;
+	distrib_opts.handle_map                        = NULL;
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
@@ -93,7 +96,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	for (size_t i = 0; i < data->num_distributions; i++) {
 		CCS_VALIDATE(_ccs_distribution_deserialize(
 			data->distributions + i, CCS_SERIALIZE_FORMAT_BINARY,
-			version, buffer_size, buffer, opts));
+			version, buffer_size, buffer, &distrib_opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			data->dimensions + i, buffer_size, buffer));
 		for (size_t j = 0; j < data->dimensions[i]; j++) {
@@ -131,7 +134,7 @@ _ccs_deserialize_bin_configuration_space(
 		obj.type != CCS_OBJECT_TYPE_CONFIGURATION_SPACE,
 		CCS_RESULT_ERROR_INVALID_TYPE);
 
-	new_opts.map_values = CCS_TRUE;
+	new_opts.map_values = CCS_FALSE;
 	CCS_VALIDATE(ccs_create_map(&new_opts.handle_map));
 
 	_ccs_configuration_space_data_mock_t data = {NULL, 0,    0,    0,
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 15ec662..e423e4e 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -218,6 +218,7 @@ _ccs_deserialize_bin_expression(
 	return CCS_RESULT_SUCCESS;
 err_exp:
 	ccs_release_object(*expression_ret);
+	*expression_ret = NULL;
 	return res;
 }
 
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 3baec98..8e040e2 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -78,7 +78,7 @@ _ccs_deserialize_bin_objective_space(
 		obj.type != CCS_OBJECT_TYPE_OBJECTIVE_SPACE,
 		CCS_RESULT_ERROR_INVALID_TYPE);
 
-	new_opts.map_values = CCS_TRUE;
+	new_opts.map_values = CCS_FALSE;
 	CCS_VALIDATE(ccs_create_map(&new_opts.handle_map));
 
 	_ccs_objective_space_data_mock_t data = {NULL, 0, 0, NULL, NULL, NULL};
-- 
2.43.0


From 0b92d15eee835866f885a139325d55c1e1041ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:57 +0000
Subject: [PATCH 030/110] fix: restore the random generator and the user state
 of tree spaces

---
 src/tree_space_deserialize.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 69e02d3..5b637fc 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -49,6 +49,13 @@ _ccs_deserialize_bin_tree_space_static(
 		ccs_create_static_tree_space(
 			data.name, data.tree, tree_space_ret),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res, ccs_tree_space_set_rng(*tree_space_ret, data.rng),
+		tree_space);
+	goto end;
+tree_space:
+	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 end:
 	if (data.rng)
 		ccs_release_object(data.rng);
@@ -82,6 +89,10 @@ _ccs_deserialize_bin_tree_space_dynamic(
 		_ccs_deserialize_bin_ccs_tree_space_common_data(
 			&data.common_data, version, buffer_size, buffer, opts),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_deserialize_bin_ccs_blob(&data.blob, buffer_size, buffer),
+		end);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_dynamic_tree_space(
@@ -154,6 +165,7 @@ _ccs_deserialize_bin_tree_space(
 	return CCS_RESULT_SUCCESS;
 err_tree_space:
 	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 	return res;
 }
 
-- 
2.43.0


From fa2cd9556ae33e8ab21f455b7be2224362f0bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:00 +0000
Subject: [PATCH 031/110] fix: restore tuners that were told the same
 evaluation several times

---
 src/cconfigspace_internal.h      | 25 +++++++++++++++++++++++++
 src/features_tuner_deserialize.h | 17 +++++++++++++++--
 src/tree_tuner_deserialize.h     | 17 +++++++++++++++--
 src/tuner_deserialize.h          | 17 +++++++++++++++--
 4 files changed, 70 insertions(+), 6 deletions(-)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index eb20271..bebd5cb 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -1065,6 +1065,31 @@ _ccs_object_handle_check_add(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* Find the object already restored for the object that comes next, if any. */
+static inline ccs_result_t
+_ccs_object_handle_peek(
+	ccs_map_t         map,
+	ccs_object_type_t type,
+	size_t            buffer_size,
+	const char       *buffer,
+	ccs_object_t     *obj_ret)
+{
+	_ccs_object_internal_t obj;
+	ccs_object_t           handle;
+	ccs_datum_t            d;
+	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object_internal(
+		&obj, &buffer_size, &buffer, &handle));
+	CCS_VALIDATE(ccs_map_get(map, ccs_object(handle), &d));
+	*obj_ret = NULL;
+	if (d.type != CCS_DATA_TYPE_OBJECT)
+		return CCS_RESULT_SUCCESS;
+	CCS_REFUTE(
+		((_ccs_object_internal_t *)d.value.o)->type != type,
+		CCS_RESULT_ERROR_INVALID_HANDLE);
+	*obj_ret = d.value.o;
+	return CCS_RESULT_SUCCESS;
+}
+
 struct _ccs_object_deserialize_options_s {
 	ccs_map_t                         handle_map;
 	ccs_bool_t                        map_values;
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 73a35e7..d815e73 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -68,10 +68,23 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 	mem += data->size_history * sizeof(ccs_features_evaluation_t);
 	data->optima = (ccs_features_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		_ccs_object_deserialize_options_t eval_opts = *opts;
+		ccs_object_t                      known;
+		CCS_VALIDATE(_ccs_object_handle_peek(
+			opts->handle_map, CCS_OBJECT_TYPE_FEATURES_EVALUATION,
+			*buffer_size, *buffer, &known));
+		/* an evaluation can be told several times */
+		eval_opts.map_values = known ? CCS_FALSE : CCS_TRUE;
 		CCS_VALIDATE(_ccs_features_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &eval_opts));
+		if (known) {
+			ccs_release_object(data->history[i]);
+			data->history[i] = (ccs_features_evaluation_t)known;
+			CCS_VALIDATE(ccs_retain_object(known));
+		}
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 5126d68..49088b5 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -64,10 +64,23 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 	mem += data->size_history * sizeof(ccs_tree_evaluation_t);
 	data->optima = (ccs_tree_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		_ccs_object_deserialize_options_t eval_opts = *opts;
+		ccs_object_t                      known;
+		CCS_VALIDATE(_ccs_object_handle_peek(
+			opts->handle_map, CCS_OBJECT_TYPE_TREE_EVALUATION,
+			*buffer_size, *buffer, &known));
+		/* an evaluation can be told several times */
+		eval_opts.map_values = known ? CCS_FALSE : CCS_TRUE;
 		CCS_VALIDATE(_ccs_tree_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &eval_opts));
+		if (known) {
+			ccs_release_object(data->history[i]);
+			data->history[i] = (ccs_tree_evaluation_t)known;
+			CCS_VALIDATE(ccs_retain_object(known));
+		}
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 468a24b..9e56240 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -63,10 +63,23 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 	mem += data->size_history * sizeof(ccs_evaluation_t);
 	data->optima = (ccs_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		_ccs_object_deserialize_options_t eval_opts = *opts;
+		ccs_object_t                      known;
+		CCS_VALIDATE(_ccs_object_handle_peek(
+			opts->handle_map, CCS_OBJECT_TYPE_EVALUATION,
+			*buffer_size, *buffer, &known));
+		/* an evaluation can be told several times */
+		eval_opts.map_values = known ? CCS_FALSE : CCS_TRUE;
 		CCS_VALIDATE(_ccs_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &eval_opts));
+		if (known) {
+			ccs_release_object(data->history[i]);
+			data->history[i] = (ccs_evaluation_t)known;
+			CCS_VALIDATE(ccs_retain_object(known));
+		}
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
-- 
2.43.0


From 238786d5d875c7e70b8b55f4bfce4a1224351597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:38 +0000
Subject: [PATCH 032/110] fix: release objects whose user data cannot be
 deserialized

---
 src/cconfigspace_internal.h           | 32 ++++++++++++++++++++-------
 src/configuration_deserialize.h       |  2 +-
 src/configuration_space_deserialize.h |  2 +-
 src/distribution_deserialize.h        |  3 ++-
 src/evaluation_deserialize.h          |  2 +-
 src/expression_deserialize.h          |  2 +-
 src/features_deserialize.h            |  2 +-
 src/features_evaluation_deserialize.h |  2 +-
 src/features_space_deserialize.h      |  2 +-
 src/features_tuner_deserialize.h      |  3 ++-
 src/map_deserialize.h                 |  2 +-
 src/objective_space_deserialize.h     |  2 +-
 src/parameter_deserialize.h           |  3 ++-
 src/rng_deserialize.h                 |  2 +-
 src/tree_configuration_deserialize.h  |  2 +-
 src/tree_deserialize.h                |  2 +-
 src/tree_evaluation_deserialize.h     |  2 +-
 src/tree_space_deserialize.h          |  2 +-
 src/tree_tuner_deserialize.h          |  3 ++-
 src/tuner_deserialize.h               |  3 ++-
 20 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index bebd5cb..dbf2463 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -1188,9 +1188,10 @@ _ccs_object_serialize_user_data(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* On failure the object is released and not returned. */
 static inline ccs_result_t
 _ccs_object_deserialize_user_data(
-	ccs_object_t                       object,
+	ccs_object_t                      *object_ret,
 	ccs_serialize_format_t             format,
 	uint32_t                           version,
 	size_t                            *buffer_size,
@@ -1198,27 +1199,42 @@ _ccs_object_deserialize_user_data(
 	_ccs_object_deserialize_options_t *opts)
 {
 	(void)version;
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY: {
 		size_t serialize_data_size;
-		CCS_VALIDATE(_ccs_deserialize_bin_size(
-			&serialize_data_size, buffer_size, buffer));
+		CCS_VALIDATE_ERR_GOTO(
+			res,
+			_ccs_deserialize_bin_size(
+				&serialize_data_size, buffer_size, buffer),
+			err_object);
+		CCS_REFUTE_ERR_GOTO(
+			res, *buffer_size < serialize_data_size,
+			CCS_RESULT_ERROR_NOT_ENOUGH_DATA, err_object);
 		if (serialize_data_size) {
 			if (opts->deserialize_callback)
-				CCS_VALIDATE(opts->deserialize_callback(
-					object, serialize_data_size, *buffer,
-					opts->deserialize_user_data));
+				CCS_VALIDATE_ERR_GOTO(
+					res,
+					opts->deserialize_callback(
+						*object_ret,
+						serialize_data_size, *buffer,
+						opts->deserialize_user_data),
+					err_object);
 			*buffer_size -= serialize_data_size;
 			*buffer += serialize_data_size;
 		}
 		break;
 	}
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_VALUE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_VALUE, err_object,
 			"Unsupported serialization format: %d", format);
 	}
 	return CCS_RESULT_SUCCESS;
+err_object:
+	ccs_release_object(*object_ret);
+	*object_ret = NULL;
+	return res;
 }
 
 #endif //_CONFIGSPACE_INTERNAL_H
diff --git a/src/configuration_deserialize.h b/src/configuration_deserialize.h
index 719535f..b8f17d9 100644
--- a/src/configuration_deserialize.h
+++ b/src/configuration_deserialize.h
@@ -84,7 +84,7 @@ _ccs_configuration_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_ret, format, version, buffer_size,
+		(ccs_object_t *)configuration_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 06e7467..1780da7 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -245,7 +245,7 @@ _ccs_configuration_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_space_ret, format, version,
+		(ccs_object_t *)configuration_space_ret, format, version,
 		buffer_size, buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index d476cf4..a449233 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -372,6 +372,7 @@ _ccs_deserialize_bin_distribution(
 	return CCS_RESULT_SUCCESS;
 err_dis:
 	ccs_release_object(*distribution_ret);
+	*distribution_ret = NULL;
 	return res;
 }
 
@@ -395,7 +396,7 @@ _ccs_distribution_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*distribution_ret, format, version, buffer_size,
+		(ccs_object_t *)distribution_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/evaluation_deserialize.h b/src/evaluation_deserialize.h
index 6f07e79..12fef11 100644
--- a/src/evaluation_deserialize.h
+++ b/src/evaluation_deserialize.h
@@ -115,7 +115,7 @@ _ccs_evaluation_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*evaluation_ret, format, version, buffer_size,
+		(ccs_object_t *)evaluation_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index e423e4e..2ecefa1 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -242,7 +242,7 @@ _ccs_expression_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*expression_ret, format, version, buffer_size,
+		(ccs_object_t *)expression_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_deserialize.h b/src/features_deserialize.h
index 5066f06..719fb93 100644
--- a/src/features_deserialize.h
+++ b/src/features_deserialize.h
@@ -83,7 +83,7 @@ _ccs_features_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_ret, format, version, buffer_size,
+		(ccs_object_t *)features_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_evaluation_deserialize.h b/src/features_evaluation_deserialize.h
index be5f097..6fbc51d 100644
--- a/src/features_evaluation_deserialize.h
+++ b/src/features_evaluation_deserialize.h
@@ -125,7 +125,7 @@ _ccs_features_evaluation_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_evaluation_ret, format, version,
+		(ccs_object_t *)features_evaluation_ret, format, version,
 		buffer_size, buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_space_deserialize.h b/src/features_space_deserialize.h
index 4cdcd1f..12dea4c 100644
--- a/src/features_space_deserialize.h
+++ b/src/features_space_deserialize.h
@@ -79,7 +79,7 @@ _ccs_features_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_space_ret, format, version, buffer_size,
+		(ccs_object_t *)features_space_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index d815e73..dbec483 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -328,6 +328,7 @@ _ccs_deserialize_bin_features_tuner(
 	goto end;
 err_features_tuner:
 	ccs_release_object(*features_tuner_ret);
+	*features_tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
@@ -354,7 +355,7 @@ _ccs_features_tuner_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_tuner_ret, format, version, buffer_size,
+		(ccs_object_t *)features_tuner_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/map_deserialize.h b/src/map_deserialize.h
index 4f44632..cef3833 100644
--- a/src/map_deserialize.h
+++ b/src/map_deserialize.h
@@ -102,7 +102,7 @@ _ccs_map_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*map_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)map_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 8e040e2..1b5d0ae 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -150,7 +150,7 @@ _ccs_objective_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*objective_space_ret, format, version,
+		(ccs_object_t *)objective_space_ret, format, version,
 		buffer_size, buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index 3f5ef85..9f96d3d 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -205,6 +205,7 @@ _ccs_deserialize_bin_parameter(
 	return CCS_RESULT_SUCCESS;
 err_parameter:
 	ccs_release_object(*parameter_ret);
+	*parameter_ret = NULL;
 	return res;
 }
 
@@ -228,7 +229,7 @@ _ccs_parameter_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*parameter_ret, format, version, buffer_size,
+		(ccs_object_t *)parameter_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/rng_deserialize.h b/src/rng_deserialize.h
index dc73355..8ecd41d 100644
--- a/src/rng_deserialize.h
+++ b/src/rng_deserialize.h
@@ -81,7 +81,7 @@ _ccs_rng_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*rng_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)rng_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_configuration_deserialize.h b/src/tree_configuration_deserialize.h
index a46e280..39d4f9f 100644
--- a/src/tree_configuration_deserialize.h
+++ b/src/tree_configuration_deserialize.h
@@ -107,7 +107,7 @@ _ccs_tree_configuration_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_ret, format, version, buffer_size,
+		(ccs_object_t *)configuration_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_deserialize.h b/src/tree_deserialize.h
index fbed9f0..e175824 100644
--- a/src/tree_deserialize.h
+++ b/src/tree_deserialize.h
@@ -135,7 +135,7 @@ _ccs_tree_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tree_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)tree_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_evaluation_deserialize.h b/src/tree_evaluation_deserialize.h
index e8a4da8..b391abb 100644
--- a/src/tree_evaluation_deserialize.h
+++ b/src/tree_evaluation_deserialize.h
@@ -115,7 +115,7 @@ _ccs_tree_evaluation_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*evaluation_ret, format, version, buffer_size,
+		(ccs_object_t *)evaluation_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 5b637fc..9048aa1 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -189,7 +189,7 @@ _ccs_tree_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tree_space_ret, format, version, buffer_size,
+		(ccs_object_t *)tree_space_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 49088b5..043feb9 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -308,6 +308,7 @@ _ccs_deserialize_bin_tree_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
@@ -333,7 +334,7 @@ _ccs_tree_tuner_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tuner_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)tuner_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 9e56240..64f2d2f 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -307,6 +307,7 @@ _ccs_deserialize_bin_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
@@ -332,7 +333,7 @@ _ccs_tuner_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tuner_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)tuner_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
-- 
2.43.0


From 10886cc6e7982ebd906bcdd541ab51b662485b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:58 +0000
Subject: [PATCH 033/110] fix: do not leave objects in the handle map when
 deserialization fails

---
 src/cconfigspace.c | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 948cd55..00766b8 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -708,6 +708,45 @@ _ccs_object_deserialize_with_opts(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* On failure nothing is left in the user provided handle map. */
+static inline ccs_result_t
+_ccs_object_deserialize_mapped(
+	ccs_object_t                      *object_ret,
+	ccs_serialize_format_t             format,
+	uint32_t                           version,
+	size_t                            *buffer_size,
+	const char                       **buffer,
+	_ccs_object_deserialize_options_t *opts)
+{
+	ccs_result_t           res        = CCS_RESULT_SUCCESS;
+	size_t                 peek_size  = *buffer_size;
+	const char            *peek       = *buffer;
+	ccs_bool_t             was_mapped = CCS_FALSE;
+	ccs_bool_t             is_mapped  = CCS_FALSE;
+	_ccs_object_internal_t obj;
+	ccs_object_t           handle;
+	if (opts->handle_map && format == CCS_SERIALIZE_FORMAT_BINARY) {
+		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object_internal(
+			&obj, &peek_size, &peek, &handle));
+		CCS_VALIDATE(ccs_map_exist(
+			opts->handle_map, ccs_object(handle), &was_mapped));
+	} else
+		was_mapped = CCS_TRUE;
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_with_opts(
+			object_ret, format, version, buffer_size, buffer, opts),
+		err_map);
+	return CCS_RESULT_SUCCESS;
+err_map:
+	if (!was_mapped &&
+	    ccs_map_exist(opts->handle_map, ccs_object(handle), &is_mapped) ==
+		    CCS_RESULT_SUCCESS &&
+	    is_mapped)
+		ccs_map_del(opts->handle_map, ccs_object(handle));
+	return res;
+}
+
 static inline ccs_result_t
 _ccs_object_deserialize(
 	ccs_object_t             *object_ret,
@@ -725,7 +764,7 @@ _ccs_object_deserialize(
 		format, operation, args, &opts));
 	CCS_VALIDATE(_ccs_deserialize_header(
 		format, buffer_size, buffer, &size, &version));
-	CCS_VALIDATE(_ccs_object_deserialize_with_opts(
+	CCS_VALIDATE(_ccs_object_deserialize_mapped(
 		object_ret, format, version, buffer_size, buffer, &opts));
 	return CCS_RESULT_SUCCESS;
 }
@@ -934,7 +973,7 @@ _ccs_object_deserialize_file_descriptor(
 	/* decode object */
 	CCS_VALIDATE_ERR_GOTO(
 		res,
-		_ccs_object_deserialize_with_opts(
+		_ccs_object_deserialize_mapped(
 			object_ret, format, pstate->version,
 			&pstate->buffer_size, (const char **)&pstate->buffer,
 			&opts),
-- 
2.43.0


From 2ccbd5daa26fa3e53875a080fee92831d0143711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:52 +0000
Subject: [PATCH 034/110] fix: release the evaluations of a features tuner that
 cannot be deserialized

---
 src/features_tuner_deserialize.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index dbec483..443919e 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -138,7 +138,7 @@ _ccs_deserialize_bin_random_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_random_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		features_evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_random_features_tuner(
@@ -158,8 +158,9 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 features_evaluations:
-	for (size_t i = 0; i < data.size_history; i++)
-		ccs_release_object(data.history[i]);
+	for (size_t i = 0; data.history && i < data.size_history; i++)
+		if (data.history[i])
+			ccs_release_object(data.history[i]);
 end:
 	if (data.common_data.configuration_space)
 		ccs_release_object(data.common_data.configuration_space);
@@ -218,7 +219,7 @@ _ccs_deserialize_bin_user_defined_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_user_defined_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_user_defined_features_tuner(
@@ -252,9 +253,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 evaluations:
-	for (size_t i = 0; i < data.base_data.size_history; i++)
-		ccs_release_object(data.base_data.history[i]);
-end:
+	for (size_t i = 0;
+	     data.base_data.history && i < data.base_data.size_history; i++)
+		if (data.base_data.history[i])
+			ccs_release_object(data.base_data.history[i]);
 	if (data.base_data.common_data.configuration_space)
 		ccs_release_object(
 			data.base_data.common_data.configuration_space);
-- 
2.43.0


From 4c25ae9f6dae72a046b50d4fb8282c5d8d37b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:05 +0000
Subject: [PATCH 035/110] fix: check the optima and the type of tuners being
 deserialized

---
 src/features_tuner_deserialize.h | 5 +++--
 src/tree_tuner_deserialize.h     | 5 +++--
 src/tuner_deserialize.h          | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 443919e..1664059 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -96,6 +96,7 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(d.value.o, CCS_OBJECT_TYPE_FEATURES_EVALUATION);
 		data->optima[i] = (ccs_features_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
@@ -314,8 +315,8 @@ _ccs_deserialize_bin_features_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_UNSUPPORTED_OPERATION,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, end,
 			"Unsuported features tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 043feb9..b0af764 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -92,6 +92,7 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(d.value.o, CCS_OBJECT_TYPE_TREE_EVALUATION);
 		data->optima[i] = (ccs_tree_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
@@ -292,8 +293,8 @@ _ccs_deserialize_bin_tree_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 64f2d2f..6494d25 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -91,6 +91,7 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(d.value.o, CCS_OBJECT_TYPE_EVALUATION);
 		data->optima[i] = (ccs_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
@@ -291,8 +292,8 @@ _ccs_deserialize_bin_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
-- 
2.43.0


From 0a30ba869dcd39ac4133b60ba14dd768b9b7d8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:26 +0000
Subject: [PATCH 036/110] fix: refuse strings that are not terminated in
 serialized data

---
 src/cconfigspace_internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index dbf2463..98ad965 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -778,6 +778,9 @@ _ccs_deserialize_bin_string(
 	size_t sz;
 	CCS_VALIDATE(_ccs_deserialize_bin_size(&sz, buffer_size, buffer));
 	CCS_REFUTE(*buffer_size < sz, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(
+		!sz || (*buffer)[sz - 1] != '\0',
+		CCS_RESULT_ERROR_INVALID_VALUE);
 	*str = *buffer;
 	*buffer_size -= sz;
 	*buffer += sz;
-- 
2.43.0


From 6cc5f34e9a0b736f6e719e07008e28d5c61dd2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:26 +0000
Subject: [PATCH 037/110] fix: refuse over long compressed integers in
 serialized data

---
 src/cconfigspace_internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 98ad965..31ba8f1 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -501,6 +501,9 @@ ccs_zigzag_decode_int64(uint64_t x)
 			CCS_REFUTE(                                            \
 				buff_size < 1,                                 \
 				CCS_RESULT_ERROR_NOT_ENOUGH_DATA);             \
+			CCS_REFUTE(                                            \
+				shift >= 8 * sizeof(MAPPED_TYPE),              \
+				CCS_RESULT_ERROR_INVALID_VALUE);               \
 			y = *buff;                                             \
 			v |= (y & 0x7f) << shift;                              \
 			buff_size -= 1;                                        \
-- 
2.43.0


From 41c44fa4f7f2f7b4dab3879489387c47eb382750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:43 +0000
Subject: [PATCH 038/110] fix: refuse element counts larger than the serialized
 data

---
 src/binding_internal.h                |  2 +-
 src/cconfigspace_internal.h           |  9 +++++++++
 src/configuration_space_deserialize.h | 10 +++++-----
 src/context_deserialize.h             |  2 +-
 src/distribution_deserialize.h        |  6 +++---
 src/expression_deserialize.h          |  2 +-
 src/features_tuner_deserialize.h      |  4 ++--
 src/map_deserialize.h                 |  2 +-
 src/objective_space_deserialize.h     |  4 ++--
 src/parameter_deserialize.h           |  2 +-
 src/tree_configuration_deserialize.h  |  2 +-
 src/tree_deserialize.h                |  2 +-
 src/tree_tuner_deserialize.h          |  4 ++--
 src/tuner_deserialize.h               |  4 ++--
 14 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/binding_internal.h b/src/binding_internal.h
index f1ebd26..a258914 100644
--- a/src/binding_internal.h
+++ b/src/binding_internal.h
@@ -266,7 +266,7 @@ _ccs_deserialize_bin_ccs_binding_data(
 	(void)version;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
 		(ccs_object_t *)&data->context, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_values, buffer_size, buffer));
 	if (data->num_values) {
 		data->values = (ccs_datum_t *)calloc(
diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 31ba8f1..29e3ea1 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -753,6 +753,15 @@ _ccs_deserialize_bin_size(size_t *sz, size_t *buffer_size, const char **buffer)
 	return CCS_RESULT_SUCCESS;
 }
 
+/* number of elements that follow, each element using at least one byte */
+static inline ccs_result_t
+_ccs_deserialize_bin_count(size_t *num, size_t *buffer_size, const char **buffer)
+{
+	CCS_VALIDATE(_ccs_deserialize_bin_size(num, buffer_size, buffer));
+	CCS_REFUTE(*num > *buffer_size, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	return CCS_RESULT_SUCCESS;
+}
+
 static inline size_t
 _ccs_serialize_bin_size_string(const char *str)
 {
diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 1780da7..498bc5b 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -38,13 +38,13 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_conditions, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_forbidden_clauses, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_rng_deserialize(
 		&data->rng, CCS_SERIALIZE_FORMAT_BINARY, version, buffer_size,
@@ -97,7 +97,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 		CCS_VALIDATE(_ccs_distribution_deserialize(
 			data->distributions + i, CCS_SERIALIZE_FORMAT_BINARY,
 			version, buffer_size, buffer, &distrib_opts));
-		CCS_VALIDATE(_ccs_deserialize_bin_size(
+		CCS_VALIDATE(_ccs_deserialize_bin_count(
 			data->dimensions + i, buffer_size, buffer));
 		for (size_t j = 0; j < data->dimensions[i]; j++) {
 			CCS_VALIDATE(_ccs_deserialize_bin_size(
diff --git a/src/context_deserialize.h b/src/context_deserialize.h
index e8fa1c8..39e001b 100644
--- a/src/context_deserialize.h
+++ b/src/context_deserialize.h
@@ -22,7 +22,7 @@ _ccs_deserialize_bin_ccs_context_data(
 	data->parameters     = NULL;
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
 	if (data->num_parameters) {
 		data->parameters = (ccs_parameter_t *)calloc(
diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index a449233..8375da0 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -130,7 +130,7 @@ _ccs_deserialize_bin_ccs_distribution_roulette_data(
 {
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_areas, buffer_size, buffer));
 	data->areas =
 		(ccs_float_t *)malloc(data->num_areas * sizeof(ccs_float_t));
@@ -198,7 +198,7 @@ _ccs_deserialize_bin_ccs_distribution_mixture_data(
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
@@ -271,7 +271,7 @@ _ccs_deserialize_bin_ccs_distribution_multivariate_data(
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 2ecefa1..a1e9c72 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -38,7 +38,7 @@ _ccs_deserialize_bin_ccs_expression_data(
 	data->nodes = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_type(
 		&data->type, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_nodes, buffer_size, buffer));
 	if (data->num_nodes) {
 		data->nodes = (ccs_datum_t *)calloc(
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 1664059..16cbe47 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -52,9 +52,9 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_features_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
diff --git a/src/map_deserialize.h b/src/map_deserialize.h
index cef3833..a11c19b 100644
--- a/src/map_deserialize.h
+++ b/src/map_deserialize.h
@@ -21,7 +21,7 @@ _ccs_deserialize_bin_ccs_map_data(
 	size_t               *buffer_size,
 	const char          **buffer)
 {
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_pairs, buffer_size, buffer));
 	data->pairs = (_ccs_map_pair_t *)malloc(
 		data->num_pairs * sizeof(_ccs_map_pair_t));
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 1b5d0ae..e0a42f3 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -25,9 +25,9 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_objectives, buffer_size, buffer));
 
 	if (!(data->num_parameters + data->num_objectives))
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index 9f96d3d..45cb8c6 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -49,7 +49,7 @@ _ccs_deserialize_bin_ccs_parameter_categorical_data(
 {
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_parameter_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_possible_values, buffer_size, buffer));
 	data->possible_values = (ccs_datum_t *)malloc(
 		data->num_possible_values * sizeof(ccs_datum_t));
diff --git a/src/tree_configuration_deserialize.h b/src/tree_configuration_deserialize.h
index 39d4f9f..a48c7f2 100644
--- a/src/tree_configuration_deserialize.h
+++ b/src/tree_configuration_deserialize.h
@@ -13,7 +13,7 @@ _ccs_deserialize_bin_tree_configuration_data(
 	(void)version;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
 		(ccs_object_t *)&data->tree_space, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->position_size, buffer_size, buffer));
 	if (data->position_size) {
 		data->position =
diff --git a/src/tree_deserialize.h b/src/tree_deserialize.h
index e175824..c74858d 100644
--- a/src/tree_deserialize.h
+++ b/src/tree_deserialize.h
@@ -32,7 +32,7 @@ _ccs_deserialize_bin_ccs_tree_data(
 	_ccs_object_deserialize_options_t new_opts = *opts;
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(
-		_ccs_deserialize_bin_size(&data->arity, buffer_size, buffer));
+		_ccs_deserialize_bin_count(&data->arity, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_float(
 		&data->weight, buffer_size, buffer));
 	if (data->arity) {
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index b0af764..53dbb47 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -48,9 +48,9 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_size_ccs_tree_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 6494d25..d9e309b 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -47,9 +47,9 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_size_ccs_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
-- 
2.43.0


From 00e31117bb9654105294a283962bd4dbfbc10540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:55 +0000
Subject: [PATCH 039/110] fix: refuse literals and variables with nodes in
 serialized data

---
 src/expression_deserialize.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index a1e9c72..8041205 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -41,6 +41,8 @@ _ccs_deserialize_bin_ccs_expression_data(
 	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_nodes, buffer_size, buffer));
 	if (data->num_nodes) {
+		/* literals and variables have no nodes */
+		CCS_REFUTE(!opts, CCS_RESULT_ERROR_INVALID_VALUE);
 		data->nodes = (ccs_datum_t *)calloc(
 			data->num_nodes, sizeof(ccs_datum_t));
 		CCS_REFUTE(!data->nodes, CCS_RESULT_ERROR_OUT_OF_MEMORY);
-- 
2.43.0


From 7015ac99fa4bfc2821ad634bac8dfb1c0c233b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:55 +0000
Subject: [PATCH 040/110] fix: check the dimensions of the distributions of a
 serialized configuration space

---
 src/configuration_space_deserialize.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 498bc5b..222c60c 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -92,6 +92,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	}
 
 	size_t *indices;
+	size_t  remaining = data->num_parameters;
 	indices = data->distrib_parameter_indices;
 	for (size_t i = 0; i < data->num_distributions; i++) {
 		CCS_VALIDATE(_ccs_distribution_deserialize(
@@ -99,6 +100,15 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 			version, buffer_size, buffer, &distrib_opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_count(
 			data->dimensions + i, buffer_size, buffer));
+		size_t dimension;
+		CCS_VALIDATE(ccs_distribution_get_dimension(
+			data->distributions[i], &dimension));
+		/* a parameter is in at most one distribution */
+		CCS_REFUTE(
+			data->dimensions[i] != dimension ||
+				dimension > remaining,
+			CCS_RESULT_ERROR_INVALID_VALUE);
+		remaining -= dimension;
 		for (size_t j = 0; j < data->dimensions[i]; j++) {
 			CCS_VALIDATE(_ccs_deserialize_bin_size(
 				indices, buffer_size, buffer));
@@ -155,7 +165,7 @@ _ccs_deserialize_bin_configuration_space(
 		res,
 		ccs_configuration_space_set_rng(
 			*configuration_space_ret, data.rng),
-		end);
+		err_configuration_space);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_configuration_space_add_parameters(
-- 
2.43.0


From 86f5415cfe1772f77c8a93a97d09bd3f5ce7953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:12 +0000
Subject: [PATCH 041/110] fix: do not use the vector of a tree tuner for its
 tree space

---
 src/tree_tuner_deserialize.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 53dbb47..3e65a89 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -179,8 +179,12 @@ _ccs_deserialize_bin_ccs_user_defined_tree_tuner_data(
 	const char                              **buffer,
 	_ccs_object_deserialize_options_t        *opts)
 {
+	/* the vector is that of the tuner, not that of its tree space */
+	_ccs_object_deserialize_options_t new_opts = *opts;
+	new_opts.vector                            = NULL;
+	new_opts.data                              = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_random_tree_tuner_data(
-		&data->base_data, version, buffer_size, buffer, opts));
+		&data->base_data, version, buffer_size, buffer, &new_opts));
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_blob(
 		&data->blob, buffer_size, buffer));
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From f261c3d8b394c2dfb2c6984dd3104eb698bb1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:36 +0000
Subject: [PATCH 042/110] fix: make restartable serialization to a file
 descriptor resume its buffer

---
 src/cconfigspace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 00766b8..4252251 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -392,7 +392,7 @@ _ccs_object_serialize_file_descriptor(
 	va_list                args)
 {
 	int                             fd;
-	ccs_result_t                    res;
+	ccs_result_t                    res    = CCS_RESULT_SUCCESS;
 	_ccs_object_serialize_options_t opts   = {NULL, NULL, NULL};
 	_ccs_file_descriptor_state_t    state  = {NULL, 0, NULL, 0, -1, 0};
 	_ccs_file_descriptor_state_t   *pstate = NULL;
@@ -424,6 +424,7 @@ _ccs_object_serialize_file_descriptor(
 			CCS_REFUTE(!mem, CCS_RESULT_ERROR_OUT_OF_MEMORY);
 			*(opts.ppfd_state) = pstate =
 				(_ccs_file_descriptor_state_t *)mem;
+			pstate->base = mem;
 			pstate->base_size =
 				sizeof(_ccs_file_descriptor_state_t) +
 				object_size;
-- 
2.43.0


From 4a2f1790dbe03f2bf862eb7f5b2df96035ca90db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:36 +0000
Subject: [PATCH 043/110] fix: report the end of file when deserializing from a
 file descriptor

---
 src/cconfigspace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 4252251..2b49f7f 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -858,6 +858,10 @@ _ccs_object_deserialize_file_descriptor_read_loop(
 			if (errno == EAGAIN && non_blocking)
 				return CCS_RESULT_AGAIN;
 		} else {
+			/* end of file */
+			CCS_REFUTE(
+				count == 0 && pstate->buffer_size,
+				CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 			pstate->buffer_size -= count;
 			pstate->buffer += count;
 		}
-- 
2.43.0


From 2756dc937b39702cf6b6f85e07ddd074b5104a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:36 +0000
Subject: [PATCH 044/110] fix: follow the state of a restartable
 deserialization when it is reallocated, and check the announced size

---
 src/cconfigspace.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 2b49f7f..534ff7e 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -948,6 +948,12 @@ _ccs_object_deserialize_file_descriptor(
 				(const char **)&pstate->buffer, &object_size,
 				&pstate->version),
 			err_fd_buffer);
+		CCS_REFUTE_ERR_GOTO(
+			res,
+			object_size < header_size ||
+				object_size >
+					SIZE_MAX - sizeof(_ccs_file_descriptor_state_t),
+			CCS_RESULT_ERROR_INVALID_VALUE, err_fd_buffer);
 		/* reallocate buffer to account for whole size */
 		if (non_blocking)
 			pstate->base_size =
@@ -959,6 +965,10 @@ _ccs_object_deserialize_file_descriptor(
 		CCS_REFUTE_ERR_GOTO(
 			res, !new_buffer, CCS_RESULT_ERROR_OUT_OF_MEMORY,
 			err_fd_buffer);
+		/* the state is at the start of the buffer */
+		if (non_blocking)
+			*(opts.ppfd_state) = pstate =
+				(_ccs_file_descriptor_state_t *)new_buffer;
 		pstate->base = new_buffer;
 		/* seek to after the header */
 		offset       = header_size;
-- 
2.43.0


From 7d5cf8af9dc06326b3e8830fb382d9c32f7be75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:42 +0000
Subject: [PATCH 045/110] fix: keep arrays consistent when growing them fails,
 and do not exit

---
 src/cconfigspace.c | 7 +++++++
 src/utarray.h      | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 534ff7e..9a7e37f 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -94,6 +94,13 @@ ccs_object_get_refcount(ccs_object_t object, int32_t *refcount_ret)
 static const UT_icd _object_callback_icd = {
 	sizeof(_ccs_object_callback_t), NULL, NULL, NULL};
 
+#undef utarray_oom
+#define utarray_oom()                                                          \
+	{                                                                      \
+		CCS_RAISE(                                                     \
+			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
+			"Not enough memory to allocate array");                \
+	}
 ccs_result_t
 ccs_object_set_destroy_callback(
 	ccs_object_t                  object,
diff --git a/src/utarray.h b/src/utarray.h
index 1fe8bc1..347f9e3 100644
--- a/src/utarray.h
+++ b/src/utarray.h
@@ -92,12 +92,14 @@ typedef struct {
 #define utarray_reserve(a,by) do {                                            \
   if (((a)->i+(by)) > (a)->n) {                                               \
     char *utarray_tmp;                                                        \
-    while (((a)->i+(by)) > (a)->n) { (a)->n = ((a)->n ? (2*(a)->n) : 8); }    \
-    utarray_tmp=(char*)realloc((a)->d, (a)->n*(a)->icd.sz);                   \
+    unsigned utarray_n = (a)->n;                                              \
+    while (((a)->i+(by)) > utarray_n) { utarray_n = (utarray_n ? (2*utarray_n) : 8); } \
+    utarray_tmp=(char*)realloc((a)->d, utarray_n*(a)->icd.sz);                \
     if (utarray_tmp == NULL) {                                                \
       utarray_oom();                                                          \
     }                                                                         \
     (a)->d=utarray_tmp;                                                       \
+    (a)->n=utarray_n;                                                         \
   }                                                                           \
 } while(0)
 
-- 
2.43.0


From fd45f28e50b8ac4dc1f99be0aea0279dc498c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:42 +0000
Subject: [PATCH 046/110] fix: leave spaces unchanged when memory runs out
 while adding to them

---
 src/configuration_space.c | 23 +++++++++++++++++++----
 src/objective_space.c     | 11 +++++++++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 7aa8566..563c965 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -461,6 +461,8 @@ ccs_configuration_space_add_parameter(
 	_ccs_distribution_wrapper_t *distrib_wrapper;
 	uintptr_t                    pmem;
 	parameter_wrapper.parameter = parameter;
+	parameter_wrapper.parents   = NULL;
+	parameter_wrapper.children  = NULL;
 	CCS_VALIDATE(ccs_retain_object(parameter));
 
 	if (distribution) {
@@ -507,17 +509,24 @@ ccs_configuration_space_add_parameter(
 	parameter_wrapper.distribution_index  = 0;
 	parameter_wrapper.distribution        = distrib_wrapper;
 	parameter_wrapper.condition           = NULL;
-	parameter_wrapper.parents             = NULL;
-	parameter_wrapper.children            = NULL;
 	utarray_new(parameter_wrapper.parents, &_size_t_icd);
 	utarray_new(parameter_wrapper.children, &_size_t_icd);
 
+	utarray_reserve(parameters, 1);
+	utarray_reserve(configuration_space->data->sorted_indexes, 1);
 	utarray_push_back(parameters, &parameter_wrapper);
 	utarray_push_back(configuration_space->data->sorted_indexes, &index);
 
 	HASH_ADD_KEYPTR(
 		hh_name, configuration_space->data->name_hash,
 		parameter_hash->name, sz_name, parameter_hash);
+#undef uthash_nonfatal_oom
+#define uthash_nonfatal_oom(elt)                                               \
+	{                                                                      \
+		CCS_RAISE_ERR_GOTO(                                            \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorhash,        \
+			"Not enough memory to allocate hash");                 \
+	}
 	HASH_ADD(
 		hh_handle, configuration_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
@@ -525,7 +534,11 @@ ccs_configuration_space_add_parameter(
 		configuration_space->data->distribution_list, distrib_wrapper);
 
 	return CCS_RESULT_SUCCESS;
+errorhash:
+	HASH_DELETE(
+		hh_name, configuration_space->data->name_hash, parameter_hash);
 errorutarray:
+	utarray_pop_back(configuration_space->data->sorted_indexes);
 	utarray_pop_back(parameters);
 errordistrib_wrapper:
 	if (parameter_hash)
@@ -640,7 +653,7 @@ ccs_configuration_space_set_distribution(
 		dmem = (uintptr_t)malloc(
 			sizeof(_ccs_distribution_wrapper_t) + sizeof(size_t));
 		CCS_REFUTE_ERR_GOTO(
-			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
+			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, dwrappers);
 		dwrapper = (_ccs_distribution_wrapper_t *)dmem;
 		dwrapper->parameter_indexes =
 			(size_t *)(dmem + sizeof(_ccs_distribution_wrapper_t));
@@ -1119,7 +1132,8 @@ ccs_configuration_space_samples(
 		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errc);
 	return CCS_RESULT_SUCCESS;
 errc:
-	ccs_release_object(config);
+	if (config)
+		ccs_release_object(config);
 	return err;
 }
 
@@ -1416,6 +1430,7 @@ ccs_configuration_space_add_forbidden_clause(
 		CCS_RAISE_ERR_GOTO(
 			err, CCS_RESULT_ERROR_INVALID_CONFIGURATION, end,
 			"Default configuration is invalid");
+	utarray_reserve(configuration_space->data->forbidden_clauses, 1);
 	CCS_VALIDATE_ERR_GOTO(err, ccs_retain_object(expression), end);
 	utarray_push_back(
 		configuration_space->data->forbidden_clauses, &expression);
diff --git a/src/objective_space.c b/src/objective_space.c
index 1839076..3ef84d4 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -315,11 +315,20 @@ ccs_objective_space_add_parameter(
 	HASH_ADD_KEYPTR(
 		hh_name, objective_space->data->name_hash, parameter_hash->name,
 		sz_name, parameter_hash);
+#undef uthash_nonfatal_oom
+#define uthash_nonfatal_oom(elt)                                               \
+	{                                                                      \
+		CCS_RAISE_ERR_GOTO(                                            \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorhash,        \
+			"Not enough memory to allocate hash");                 \
+	}
 	HASH_ADD(
 		hh_handle, objective_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
 
 	return CCS_RESULT_SUCCESS;
+errorhash:
+	HASH_DELETE(hh_name, objective_space->data->name_hash, parameter_hash);
 errorutarray:
 	utarray_pop_back(parameters);
 errormem:
@@ -500,6 +509,7 @@ ccs_objective_space_add_objective(
 	CCS_CHECK_OBJ(objective_space, CCS_OBJECT_TYPE_OBJECTIVE_SPACE);
 	CCS_VALIDATE(ccs_expression_check_context(
 		expression, (ccs_context_t)objective_space));
+	utarray_reserve(objective_space->data->objectives, 1);
 	CCS_VALIDATE(ccs_retain_object(expression));
 	_ccs_objective_t objective;
 	objective.expression = expression;
@@ -521,6 +531,7 @@ ccs_objective_space_add_objectives(
 	for (size_t i = 0; i < num_objectives; i++) {
 		CCS_VALIDATE(ccs_expression_check_context(
 			expressions[i], (ccs_context_t)objective_space));
+		utarray_reserve(objective_space->data->objectives, 1);
 		CCS_VALIDATE(ccs_retain_object(expressions[i]));
 		_ccs_objective_t objective;
 		objective.expression = expressions[i];
-- 
2.43.0


From e45b806bd9057b5efb3bab7bfe95420a72b34ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:42 +0000
Subject: [PATCH 047/110] fix: leave features spaces unchanged when memory runs
 out while adding to them

---
 src/features_space.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/features_space.c b/src/features_space.c
index 7bec62d..2aac775 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -187,11 +187,20 @@ ccs_features_space_add_parameter(
 	HASH_ADD_KEYPTR(
 		hh_name, features_space->data->name_hash, parameter_hash->name,
 		sz_name, parameter_hash);
+#undef uthash_nonfatal_oom
+#define uthash_nonfatal_oom(elt)                                               \
+	{                                                                      \
+		CCS_RAISE_ERR_GOTO(                                            \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorhash,        \
+			"Not enough memory to allocate hash");                 \
+	}
 	HASH_ADD(
 		hh_handle, features_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
 
 	return CCS_RESULT_SUCCESS;
+errorhash:
+	HASH_DELETE(hh_name, features_space->data->name_hash, parameter_hash);
 errorutarray:
 	utarray_pop_back(parameters);
 errormem:
-- 
2.43.0


From 05d51adddaccbb4e12db7e3cd8150dcd8c60f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:42 +0000
Subject: [PATCH 048/110] fix: accept features spaces in
 ccs_features_space_check_features_values

---
 src/features_space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features_space.c b/src/features_space.c
index 2aac775..f15145f 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -375,7 +375,7 @@ ccs_features_space_check_features_values(
 	ccs_datum_t         *values,
 	ccs_bool_t          *is_valid_ret)
 {
-	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
+	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_ARY(num_values, values);
 	CCS_VALIDATE(_check_features(
 		features_space, num_values, values, is_valid_ret));
-- 
2.43.0


From b961ffe9e1aab6af5c710a7a633484d6f10daddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:42 +0000
Subject: [PATCH 049/110] fix: free the copy of a string that cannot be stored

---
 src/parameter_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parameter_string.c b/src/parameter_string.c
index e45990b..2363ea5 100644
--- a/src/parameter_string.c
+++ b/src/parameter_string.c
@@ -117,6 +117,7 @@ _ccs_parameter_string_serialize(
 #undef uthash_nonfatal_oom
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
+		free(elt);                                                     \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate array");                \
-- 
2.43.0


From 6145f97638f60224a966bd8a7733c23490d721f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:42 +0000
Subject: [PATCH 050/110] fix: validate all the values before setting any in a
 binding

---
 src/binding_internal.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/binding_internal.h b/src/binding_internal.h
index a258914..36c29b1 100644
--- a/src/binding_internal.h
+++ b/src/binding_internal.h
@@ -96,6 +96,14 @@ _ccs_binding_set_values(
 	size_t num = binding->data->num_values;
 	CCS_REFUTE(num_values != num, CCS_RESULT_ERROR_INVALID_VALUE);
 	if (values) {
+		// nothing is modified unless every value can be
+		for (size_t i = 0; i < num_values; i++) {
+			ccs_datum_t value = values[i];
+			if (value.flags & CCS_DATUM_FLAG_TRANSIENT)
+				CCS_VALIDATE(ccs_context_validate_value(
+					binding->data->context, i, value,
+					&value));
+		}
 		for (size_t i = 0; i < num_values; i++) {
 			ccs_datum_t value = values[i];
 			if (value.flags & CCS_DATUM_FLAG_TRANSIENT)
-- 
2.43.0


From 77910c112e9b3a8234e037715fcb209b66b1f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:42 +0000
Subject: [PATCH 051/110] fix: tell random tuners nothing or everything

---
 src/features_tuner_deserialize.h |  2 ++
 src/features_tuner_random.c      | 15 ++++++---------
 src/tree_tuner_deserialize.h     |  2 ++
 src/tree_tuner_random.c          | 15 ++++++---------
 src/tuner_deserialize.h          |  2 ++
 src/tuner_random.c               | 15 ++++++---------
 6 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 16cbe47..ccf3637 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -150,6 +150,8 @@ _ccs_deserialize_bin_random_features_tuner(
 		features_evaluations);
 	odata = (_ccs_random_features_tuner_data_clone_t
 			 *)((*features_tuner_ret)->data);
+	utarray_reserve(odata->history, data.size_history);
+	utarray_reserve(odata->optima, data.size_optima);
 	for (size_t i = 0; i < data.size_history; i++)
 		utarray_push_back(odata->history, data.history + i);
 	for (size_t i = 0; i < data.size_optima; i++)
diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index 4772a2f..0b62c45 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -179,7 +179,6 @@ _ccs_features_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate new array");            \
@@ -194,6 +193,12 @@ _ccs_features_tuner_random_tell(
 		(_ccs_random_features_tuner_data_t *)tuner->data;
 	UT_array    *history = d->history;
 	ccs_result_t err;
+	// nothing is modified unless everything can be recorded
+	utarray_reserve(history, num_evaluations);
+	utarray_clear(d->old_optima);
+	utarray_reserve(
+		d->old_optima, utarray_len(d->optima) + num_evaluations);
+	utarray_reserve(d->optima, num_evaluations);
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(ccs_features_evaluation_get_result(
@@ -208,14 +213,6 @@ _ccs_features_tuner_random_tell(
 			d->optima     = tmp;
 			utarray_clear(d->optima);
 			ccs_features_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Not enough memory to allocate new array");            \
-	}
 			while ((eval = (ccs_features_evaluation_t *)
 					utarray_next(d->old_optima, eval))) {
 				if (!discard) {
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 3e65a89..57f5cb9 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -139,6 +139,8 @@ _ccs_deserialize_bin_random_tree_tuner(
 			data.common_data.objective_space, tuner_ret),
 		evaluations);
 	odata = (_ccs_random_tree_tuner_data_clone_t *)((*tuner_ret)->data);
+	utarray_reserve(odata->history, data.size_history);
+	utarray_reserve(odata->optima, data.size_optima);
 	for (size_t i = 0; i < data.size_history; i++)
 		utarray_push_back(odata->history, data.history + i);
 	for (size_t i = 0; i < data.size_optima; i++)
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index 5a3f572..40e8723 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -171,7 +171,6 @@ _ccs_tree_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -186,6 +185,12 @@ _ccs_tree_tuner_random_tell(
 		(_ccs_random_tree_tuner_data_t *)tuner->data;
 	UT_array    *history = d->history;
 	ccs_result_t err;
+	// nothing is modified unless everything can be recorded
+	utarray_reserve(history, num_evaluations);
+	utarray_clear(d->old_optima);
+	utarray_reserve(
+		d->old_optima, utarray_len(d->optima) + num_evaluations);
+	utarray_reserve(d->optima, num_evaluations);
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(ccs_tree_evaluation_get_result(
@@ -200,14 +205,6 @@ _ccs_tree_tuner_random_tell(
 			d->optima     = tmp;
 			utarray_clear(d->optima);
 			ccs_tree_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Out of memory to allocate array");                    \
-	}
 			while ((eval = (ccs_tree_evaluation_t *)utarray_next(
 					d->old_optima, eval))) {
 				if (!discard) {
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index d9e309b..8716692 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -138,6 +138,8 @@ _ccs_deserialize_bin_random_tuner(
 			data.common_data.objective_space, tuner_ret),
 		evaluations);
 	odata = (_ccs_random_tuner_data_clone_t *)((*tuner_ret)->data);
+	utarray_reserve(odata->history, data.size_history);
+	utarray_reserve(odata->optima, data.size_optima);
 	for (size_t i = 0; i < data.size_history; i++)
 		utarray_push_back(odata->history, data.history + i);
 	for (size_t i = 0; i < data.size_optima; i++)
diff --git a/src/tuner_random.c b/src/tuner_random.c
index 480c356..a9890d1 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -171,7 +171,6 @@ _ccs_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -185,6 +184,12 @@ _ccs_tuner_random_tell(
 	_ccs_random_tuner_data_t *d = (_ccs_random_tuner_data_t *)tuner->data;
 	UT_array                 *history = d->history;
 	ccs_result_t              err;
+	// nothing is modified unless everything can be recorded
+	utarray_reserve(history, num_evaluations);
+	utarray_clear(d->old_optima);
+	utarray_reserve(
+		d->old_optima, utarray_len(d->optima) + num_evaluations);
+	utarray_reserve(d->optima, num_evaluations);
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(
@@ -199,14 +204,6 @@ _ccs_tuner_random_tell(
 			d->optima     = tmp;
 			utarray_clear(d->optima);
 			ccs_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Out of memory to allocate array");                    \
-	}
 			while ((eval = (ccs_evaluation_t *)utarray_next(
 					d->old_optima, eval))) {
 				if (!discard) {
-- 
2.43.0


From 4a028d6cc7cf1e9068c2c81a8c7216cd3a37d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:42 +0000
Subject: [PATCH 052/110] fix: tell how many tree configurations were sampled
 before a failure

---
 src/tree_space.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree_space.c b/src/tree_space.c
index c835e1b..8572088 100644
--- a/src/tree_space.c
+++ b/src/tree_space.c
@@ -207,6 +207,8 @@ ccs_tree_space_samples(
 	CCS_CHECK_ARY(num_configurations, configurations);
 	if (num_configurations == 0)
 		return CCS_RESULT_SUCCESS;
+	for (size_t i = 0; i < num_configurations; i++)
+		configurations[i] = NULL;
 	CCS_VALIDATE(_ccs_tree_space_samples(
 		tree_space, num_configurations, configurations));
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From b288ad4b965c4e9d1a666b56766b668957ee7d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:31 +0000
Subject: [PATCH 053/110] fix: refuse null outputs instead of writing through
 them

---
 src/cconfigspace.c        | 1 +
 src/error_stack.c         | 2 ++
 src/evaluation.c          | 1 +
 src/features_evaluation.c | 1 +
 src/features_space.c      | 1 +
 src/objective_space.c     | 1 +
 src/rng.c                 | 1 +
 src/tree_configuration.c  | 1 +
 src/tree_evaluation.c     | 1 +
 9 files changed, 10 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 9a7e37f..e024ae0 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -1058,6 +1058,7 @@ end:
 ccs_result_t
 ccs_get_result_name(ccs_result_t result, const char **name)
 {
+	CCS_CHECK_PTR(name);
 	switch (result) {
 		ETOCASE(CCS_RESULT_AGAIN);
 		ETOCASE(CCS_RESULT_SUCCESS);
diff --git a/src/error_stack.c b/src/error_stack.c
index baded2d..536ed4e 100644
--- a/src/error_stack.c
+++ b/src/error_stack.c
@@ -121,6 +121,8 @@ ccs_create_error_stack(
 	const char        *msg,
 	...)
 {
+	if (CCS_UNLIKELY(!error_stack_ret))
+		return CCS_RESULT_ERROR_INVALID_VALUE;
 	ccs_result_t err;
 	va_list      args;
 	va_start(args, msg);
diff --git a/src/evaluation.c b/src/evaluation.c
index 2b721ee..4557b16 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -127,6 +127,7 @@ _ccs_evaluation_serialize(
 static ccs_result_t
 _ccs_evaluation_hash(_ccs_evaluation_data_t *data, ccs_hash_t *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_configuration_hash(data->configuration, &ht));
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index 86feda7..354bb8d 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -139,6 +139,7 @@ _ccs_features_evaluation_hash(
 	_ccs_features_evaluation_data_t *data,
 	ccs_hash_t                      *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_configuration_hash(data->configuration, &ht));
diff --git a/src/features_space.c b/src/features_space.c
index f15145f..9c0acad 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -334,6 +334,7 @@ _check_features(
 	ccs_datum_t         *values,
 	ccs_bool_t          *is_valid_ret)
 {
+	CCS_CHECK_PTR(is_valid_ret);
 	UT_array *array          = features_space->data->parameters;
 	size_t    num_parameters = utarray_len(array);
 	CCS_REFUTE(
diff --git a/src/objective_space.c b/src/objective_space.c
index 3ef84d4..e8cc044 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -449,6 +449,7 @@ _check_evaluation(
 	ccs_datum_t          *values,
 	ccs_bool_t           *is_valid_ret)
 {
+	CCS_CHECK_PTR(is_valid_ret);
 	UT_array *array          = objective_space->data->parameters;
 	size_t    num_parameters = utarray_len(array);
 	CCS_REFUTE(
diff --git a/src/rng.c b/src/rng.c
index c710ee0..25e8f12 100644
--- a/src/rng.c
+++ b/src/rng.c
@@ -138,6 +138,7 @@ ccs_result_t
 ccs_rng_get_type(ccs_rng_t rng, const gsl_rng_type **rng_type_ret)
 {
 	CCS_CHECK_OBJ(rng, CCS_OBJECT_TYPE_RNG);
+	CCS_CHECK_PTR(rng_type_ret);
 	*rng_type_ret = rng->data->rng_type;
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_configuration.c b/src/tree_configuration.c
index c009a21..9baa40d 100644
--- a/src/tree_configuration.c
+++ b/src/tree_configuration.c
@@ -196,6 +196,7 @@ ccs_tree_configuration_get_values(
 	size_t                  *num_values_ret)
 {
 	CCS_CHECK_OBJ(configuration, CCS_OBJECT_TYPE_TREE_CONFIGURATION);
+	CCS_CHECK_ARY(num_values, values);
 	CCS_REFUTE(!values && !num_values_ret, CCS_RESULT_ERROR_INVALID_VALUE);
 	size_t num = configuration->data->position_size + 1;
 	if (values)
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index 2f969b5..76561a9 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -130,6 +130,7 @@ _ccs_tree_evaluation_hash(
 	_ccs_tree_evaluation_data_t *data,
 	ccs_hash_t                  *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_tree_configuration_hash(data->configuration, &ht));
-- 
2.43.0


From af26d746ecf377d3dc588924dbb1dbf7dbc4a641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:31 +0000
Subject: [PATCH 054/110] fix: refuse objects that are not contexts as contexts

---
 src/context.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/context.c b/src/context.c
index 4c8db37..1a83965 100644
--- a/src/context.c
+++ b/src/context.c
@@ -3,7 +3,12 @@
 
 #define CCS_CHECK_CONTEXT(c)                                                   \
 	CCS_REFUTE_MSG(                                                        \
-		CCS_UNLIKELY(!(c) || !(c)->data),                              \
+		CCS_UNLIKELY(                                                  \
+			!(c) || !(c)->data ||                                  \
+			((c)->obj.type !=                                      \
+				 CCS_OBJECT_TYPE_CONFIGURATION_SPACE &&        \
+			 (c)->obj.type != CCS_OBJECT_TYPE_OBJECTIVE_SPACE &&   \
+			 (c)->obj.type != CCS_OBJECT_TYPE_FEATURES_SPACE)),    \
 		CCS_RESULT_ERROR_INVALID_OBJECT,                               \
 		"Invalid CCS context '%s' == %p supplied", #c, c)
 
-- 
2.43.0


From 9849a9a28d2f2275ce83d4ab5d2fd8a790ee8751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:31 +0000
Subject: [PATCH 055/110] fix: refuse objects that are not bindings as
 bindings, order bindings of different types

---
 src/binding.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/binding.c b/src/binding.c
index 6c2f705..1358159 100644
--- a/src/binding.c
+++ b/src/binding.c
@@ -3,7 +3,14 @@
 
 #define CCS_CHECK_BINDING(b)                                                   \
 	CCS_REFUTE_MSG(                                                        \
-		CCS_UNLIKELY(!(b) || !(b)->data),                              \
+		CCS_UNLIKELY(                                                  \
+			!(b) || !(b)->data ||                                  \
+			((b)->obj.type != CCS_OBJECT_TYPE_CONFIGURATION &&     \
+			 (b)->obj.type != CCS_OBJECT_TYPE_FEATURES &&          \
+			 (b)->obj.type != CCS_OBJECT_TYPE_EVALUATION &&        \
+			 (b)->obj.type !=                                      \
+				 CCS_OBJECT_TYPE_FEATURES_EVALUATION &&        \
+			 (b)->obj.type != CCS_OBJECT_TYPE_TREE_EVALUATION)),   \
 		CCS_RESULT_ERROR_INVALID_OBJECT,                               \
 		"Invalid CCS binding '%s' == %p supplied", #b, b)
 
@@ -129,6 +136,10 @@ ccs_binding_cmp(ccs_binding_t binding, ccs_binding_t other_binding, int *cmp_ret
 		*cmp_ret = 0;
 		return CCS_RESULT_SUCCESS;
 	}
+	if (binding->obj.type != other_binding->obj.type) {
+		*cmp_ret = binding->obj.type < other_binding->obj.type ? -1 : 1;
+		return CCS_RESULT_SUCCESS;
+	}
 	_ccs_binding_ops_t *ops = ccs_binding_get_ops(binding);
 	CCS_VALIDATE(ops->cmp(binding->data, other_binding, cmp_ret));
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 4b327610b9366c84b4c5cac0d9d72333d906cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:31 +0000
Subject: [PATCH 056/110] fix: check every evaluation before telling any

---
 src/features_tuner.c | 3 +++
 src/tree_tuner.c     | 2 ++
 src/tuner.c          | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/src/features_tuner.c b/src/features_tuner.c
index d7b436f..2191dab 100644
--- a/src/features_tuner.c
+++ b/src/features_tuner.c
@@ -105,6 +105,9 @@ ccs_features_tuner_tell(
 {
 	CCS_CHECK_OBJ(tuner, CCS_OBJECT_TYPE_FEATURES_TUNER);
 	CCS_CHECK_ARY(num_evaluations, evaluations);
+	for (size_t i = 0; i < num_evaluations; i++)
+		CCS_CHECK_OBJ(
+			evaluations[i], CCS_OBJECT_TYPE_FEATURES_EVALUATION);
 	_ccs_features_tuner_ops_t *ops = ccs_features_tuner_get_ops(tuner);
 	CCS_VALIDATE(ops->tell(tuner, num_evaluations, evaluations));
 	return CCS_RESULT_SUCCESS;
diff --git a/src/tree_tuner.c b/src/tree_tuner.c
index be2374b..5fa6c1f 100644
--- a/src/tree_tuner.c
+++ b/src/tree_tuner.c
@@ -82,6 +82,8 @@ ccs_tree_tuner_tell(
 {
 	CCS_CHECK_OBJ(tuner, CCS_OBJECT_TYPE_TREE_TUNER);
 	CCS_CHECK_ARY(num_evaluations, evaluations);
+	for (size_t i = 0; i < num_evaluations; i++)
+		CCS_CHECK_OBJ(evaluations[i], CCS_OBJECT_TYPE_TREE_EVALUATION);
 	/* TODO: check that evaluations have the same objective and
 	 * configuration sapce than the tuner */
 	_ccs_tree_tuner_ops_t *ops = ccs_tree_tuner_get_ops(tuner);
diff --git a/src/tuner.c b/src/tuner.c
index 9a832d8..99e3826 100644
--- a/src/tuner.c
+++ b/src/tuner.c
@@ -78,6 +78,8 @@ ccs_tuner_tell(
 {
 	CCS_CHECK_OBJ(tuner, CCS_OBJECT_TYPE_TUNER);
 	CCS_CHECK_ARY(num_evaluations, evaluations);
+	for (size_t i = 0; i < num_evaluations; i++)
+		CCS_CHECK_OBJ(evaluations[i], CCS_OBJECT_TYPE_EVALUATION);
 	/* TODO: check that evaluations have the same objective and
 	 * configuration sapce than the tuner */
 	_ccs_tuner_ops_t *ops = ccs_tuner_get_ops(tuner);
-- 
2.43.0


From ef39b6844662e25fd39763f1c31635ca224c6c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:42 +0000
Subject: [PATCH 057/110] fix: Comparing bound values gives -1, 0 or 1

---
 src/datum_hash.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/datum_hash.h b/src/datum_hash.h
index 8124a46..cacb7d7 100644
--- a/src/datum_hash.h
+++ b/src/datum_hash.h
@@ -31,6 +31,12 @@
  * }
  */
 
+static inline int
+_ccs_sign(int x)
+{
+	return (x > 0) - (x < 0);
+}
+
 static inline int
 _datum_cmp(ccs_datum_t *a, ccs_datum_t *b)
 {
@@ -48,14 +54,15 @@ _datum_cmp(ccs_datum_t *a, ccs_datum_t *b)
 			else if (!b->value.s)
 				return 1;
 			else
-				return strcmp(a->value.s, b->value.s);
+				return _ccs_sign(
+					strcmp(a->value.s, b->value.s));
 		case CCS_DATA_TYPE_NONE:
 		case CCS_DATA_TYPE_INACTIVE:
 			return 0;
 			break;
 		default:
-			return memcmp(
-				&(a->value), &(b->value), sizeof(ccs_value_t));
+			return _ccs_sign(memcmp(
+				&(a->value), &(b->value), sizeof(ccs_value_t)));
 		}
 	}
 }
-- 
2.43.0


From c6bbda586fbcb9f45de2ff375f67b2481ef355dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:18 +0000
Subject: [PATCH 058/110] fix: ccs_datum_cmp gives -1, 0 or 1 and orders NaN

---
 include/cconfigspace/base.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cconfigspace/base.h b/include/cconfigspace/base.h
index 165d0b4..0e028ed 100644
--- a/include/cconfigspace/base.h
+++ b/include/cconfigspace/base.h
@@ -593,6 +593,7 @@ ccs_string(const char *v)
 static inline int
 ccs_datum_cmp(ccs_datum_t a, ccs_datum_t b)
 {
+	int cmp;
 	if (a.type < b.type) {
 		return -1;
 	} else if (a.type > b.type) {
@@ -607,7 +608,8 @@ ccs_datum_cmp(ccs_datum_t a, ccs_datum_t b)
 			else if (!b.value.s)
 				return 1;
 			else
-				return strcmp(a.value.s, b.value.s);
+				cmp = strcmp(a.value.s, b.value.s);
+			return (cmp > 0) - (cmp < 0);
 			break;
 		case CCS_DATA_TYPE_INT:
 			return a.value.i < b.value.i ? -1 :
@@ -615,17 +617,21 @@ ccs_datum_cmp(ccs_datum_t a, ccs_datum_t b)
 						       0;
 			break;
 		case CCS_DATA_TYPE_FLOAT:
+			/* NaN come after every other value */
 			return a.value.f < b.value.f ? -1 :
 			       a.value.f > b.value.f ? 1 :
-						       0;
+						       (a.value.f != a.value.f) -
+							       (b.value.f !=
+								b.value.f);
 			break;
 		case CCS_DATA_TYPE_NONE:
 		case CCS_DATA_TYPE_INACTIVE:
 			return 0;
 			break;
 		default:
-			return memcmp(
+			cmp = memcmp(
 				&(a.value), &(b.value), sizeof(ccs_value_t));
+			return (cmp > 0) - (cmp < 0);
 		}
 	}
 }
-- 
2.43.0


From ef7e97b39740944450ffb6e10d47bd7ef8fd6864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:31 +0000
Subject: [PATCH 059/110] fix: Free an object whose deletion callback fails

---
 src/cconfigspace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index e024ae0..6d80aa8 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -65,8 +65,9 @@ ccs_release_object(ccs_object_t object)
 			}
 			utarray_free(obj->callbacks);
 		}
-		CCS_VALIDATE(obj->ops->del(object));
+		ccs_result_t err = obj->ops->del(object);
 		free(object);
+		CCS_VALIDATE(err);
 	}
 	return CCS_RESULT_SUCCESS;
 }
-- 
2.43.0


From 4d6f12dc41f3abcfcfc0608eeeaefb07815e7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:07 +0000
Subject: [PATCH 060/110] fix: Parenthesise the operands that need it in the
 text of an expression

---
 bindings/python/cconfigspace/expression.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/expression.py b/bindings/python/cconfigspace/expression.py
index 005b761..07b3164 100644
--- a/bindings/python/cconfigspace/expression.py
+++ b/bindings/python/cconfigspace/expression.py
@@ -169,11 +169,17 @@ class Expression(Object):
     res = ccs_expression_check_context(self.handle, context.handle)
     Error.check(res)
 
+  # How tightly the text of the expression binds
+  @property
+  def _precedence(self):
+    return ccs_expression_precedence[self.type]
+
   def __str__(self):
     t = self.type
     symbol = ccs_expression_symbols[t]
     prec = ccs_expression_precedence[t]
-    nds = ["({})".format(n) if ccs_expression_precedence[n.type] < prec else n.__str__() for n in self.nodes]
+    # binary operators group to the left
+    nds = ["({})".format(n) if n._precedence < prec + i else n.__str__() for i, n in enumerate(self.nodes)]
     if len(nds) == 1:
       return "{}{}".format(symbol, nds[0])
     else:
@@ -410,6 +416,13 @@ class ExpressionLiteral(Expression):
     self._value = v.value
     return self._value
   
+  # a negative number reads as the negation of a number
+  @property
+  def _precedence(self):
+    if str(self).startswith("-"):
+      return ccs_expression_precedence[ExpressionType.NEGATIVE]
+    return super()._precedence
+
   def __str__(self):
     v = self.value
     if isinstance(v, str):
-- 
2.43.0


From 9ca8e6eadad863450759c975ec4ce4b31cb57d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:27 +0000
Subject: [PATCH 061/110] fix: Print every string literal so that it can be
 read back

---
 bindings/python/cconfigspace/expression.py | 4 +++-
 src/expression.c                           | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bindings/python/cconfigspace/expression.py b/bindings/python/cconfigspace/expression.py
index 07b3164..bdad49d 100644
--- a/bindings/python/cconfigspace/expression.py
+++ b/bindings/python/cconfigspace/expression.py
@@ -393,6 +393,8 @@ class ExpressionLiteral(Expression):
   none_symbol = ccs_terminal_symbols[TerminalType.NONE]
   true_aymbol = ccs_terminal_symbols[TerminalType.TRUE]
   false_symbol = ccs_terminal_symbols[TerminalType.FALSE]
+  # the escape sequences of ccs_terminal_regexp[TerminalType.STRING]
+  escapes = { "\\": "\\\\", "'": "\\'", "\t": "\\t", "\n": "\\n", "\r": "\\r", "\f": "\\f" }
 
   def __init__(self, handle = None, retain = False, auto_release = True,
                value = None):
@@ -426,7 +428,7 @@ class ExpressionLiteral(Expression):
   def __str__(self):
     v = self.value
     if isinstance(v, str):
-      return repr(v)
+      return "'{}'".format("".join(ExpressionLiteral.escapes.get(c, c) for c in v))
     elif v is None:
       return ExpressionLiteral.none_symbol
     elif v is True:
diff --git a/src/expression.c b/src/expression.c
index cef367c..60be205 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -66,7 +66,7 @@ const char *ccs_terminal_regexp[] = {
 	"none",
 	"true",
 	"false",
-	"\"([^\\0\\t\\n\\r\\f\"\\\\]|\\\\[0tnrf\"\\\\])+\"|'([^\\0\\t\\n\\r\\f'\\\\]|\\\\[0tnrf'\\\\])+'",
+	"\"([^\\0\\t\\n\\r\\f\"\\\\]|\\\\[0tnrf\"\\\\])*\"|'([^\\0\\t\\n\\r\\f'\\\\]|\\\\[0tnrf'\\\\])*'",
 	"[a-zA-Z_][a-zA-Z_0-9]*",
 	"-?[0-9]+",
 	"-?[0-9]+([eE][+-]?[0-9]+|\\.[0-9]+([eE][+-]?[0-9]+)?)"
-- 
2.43.0


From fcda1fc0285ee46d381d4c710a70958690fd1e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:04 +0000
Subject: [PATCH 062/110] fix: Read a name that begins with none, true or false
 as a name

---
 src/expression.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expression.c b/src/expression.c
index 60be205..1e7a2bf 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -63,9 +63,9 @@ const int ccs_terminal_precedence[] = {
 };
 
 const char *ccs_terminal_regexp[] = {
-	"none",
-	"true",
-	"false",
+	"none\\b",
+	"true\\b",
+	"false\\b",
 	"\"([^\\0\\t\\n\\r\\f\"\\\\]|\\\\[0tnrf\"\\\\])*\"|'([^\\0\\t\\n\\r\\f'\\\\]|\\\\[0tnrf'\\\\])*'",
 	"[a-zA-Z_][a-zA-Z_0-9]*",
 	"-?[0-9]+",
-- 
2.43.0


From 11c9957f2a0a800508fd97e558e5ca3c2c968320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:28 +0000
Subject: [PATCH 063/110] fix: list the parameters of an expression

---
 bindings/python/cconfigspace/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/expression.py b/bindings/python/cconfigspace/expression.py
index bdad49d..2123841 100644
--- a/bindings/python/cconfigspace/expression.py
+++ b/bindings/python/cconfigspace/expression.py
@@ -141,7 +141,7 @@ class Expression(Object):
     if sz == 0:
       self._parameters = []
       return []
-    v = (ccs_parameter * sz.value)()
+    v = (ccs_parameter * sz)()
     res = ccs_expression_get_parameters(self.handle, sz, v, None)
     Error.check(res)
     self._parameters = [Parameter.from_handle(ccs_parameter(x)) for x in v]
-- 
2.43.0


From 9ec38ebb540cbfdf11f320a6ddf516d9e8af91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:28 +0000
Subject: [PATCH 064/110] fix: return the hash of a binding

---
 bindings/python/cconfigspace/binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/binding.py b/bindings/python/cconfigspace/binding.py
index 667efb0..ae9a73c 100644
--- a/bindings/python/cconfigspace/binding.py
+++ b/bindings/python/cconfigspace/binding.py
@@ -124,7 +124,7 @@ class Binding(Object):
     v = ccs_hash()
     res = ccs_binding_hash(self.handle, ct.byref(v))
     Error.check(res)
-    return self.value
+    return v.value
 
   def __hash__(self):
     return self.hash
-- 
2.43.0


From e4a2e381dbe614b9afafdbe1067dd6ecceb9c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:28 +0000
Subject: [PATCH 065/110] fix: set the value of a binding by name

---
 bindings/python/cconfigspace/binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/binding.py b/bindings/python/cconfigspace/binding.py
index ae9a73c..d353e38 100644
--- a/bindings/python/cconfigspace/binding.py
+++ b/bindings/python/cconfigspace/binding.py
@@ -42,7 +42,7 @@ class Binding(Object):
     if isinstance(parameter, Parameter):
       res = ccs_binding_set_value_by_parameter(self.handle, parameter.handle, v)
     elif isinstance(parameter, str):
-      res = ccs_binding_set_value_by_name(self.handle, str.encode(parameter), ct.byref(v))
+      res = ccs_binding_set_value_by_name(self.handle, str.encode(parameter), v)
     else:
       res = ccs_binding_set_value(self.handle, parameter, v)
     Error.check(res)
-- 
2.43.0


From 5e909608ff37be7d5c963ae86282fb0574f80452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:28 +0000
Subject: [PATCH 066/110] fix: give features spaces as features spaces

---
 bindings/python/cconfigspace/base.py     | 2 +-
 bindings/python/cconfigspace/features.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index 29a9c10..eebc738 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -771,7 +771,7 @@ setattr(Object, 'CLASS_MAP', {
   ObjectType.EXPRESSION: Expression,
   ObjectType.CONFIGURATION_SPACE: ConfigurationSpace,
   ObjectType.CONFIGURATION: Configuration,
-  ObjectType.FEATURES_SPACE: ConfigurationSpace,
+  ObjectType.FEATURES_SPACE: FeaturesSpace,
   ObjectType.FEATURES: Features,
   ObjectType.OBJECTIVE_SPACE: ObjectiveSpace,
   ObjectType.EVALUATION: Evaluation,
diff --git a/bindings/python/cconfigspace/features.py b/bindings/python/cconfigspace/features.py
index 0d951bd..e3a3639 100644
--- a/bindings/python/cconfigspace/features.py
+++ b/bindings/python/cconfigspace/features.py
@@ -40,7 +40,7 @@ class Features(Binding):
     v = ccs_features_space()
     res = ccs_features_get_features_space(self.handle, ct.byref(v))
     Error.check(res)
-    self._features_space = ConfigurationSpace.from_handle(v)
+    self._features_space = FeaturesSpace.from_handle(v)
     return self._features_space
 
   def check(self):
-- 
2.43.0


From 117ebce4cd6932a2ad2e048a2467ca68862d62f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:28 +0000
Subject: [PATCH 067/110] fix: validate values by parameter and by name

---
 bindings/python/cconfigspace/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/cconfigspace/context.py b/bindings/python/cconfigspace/context.py
index 0dfd0b2..b7aa24c 100644
--- a/bindings/python/cconfigspace/context.py
+++ b/bindings/python/cconfigspace/context.py
@@ -67,9 +67,9 @@ class Context(Object):
 
   def validate_value(self, parameter, value):
     if isinstance(parameter, Parameter):
-      parameter = parameter_index(parameter)
+      parameter = self.parameter_index(parameter)
     elif isinstance(parameter, str):
-      parameter = parameter_index_by_name(parameter)
+      parameter = self.parameter_index_by_name(parameter)
     pv = Datum(value)
     v = DatumFix(pv)
     vo = Datum()
-- 
2.43.0


From cebc78452f8842d182896b7887871b14b8c11ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:28 +0000
Subject: [PATCH 068/110] fix: check features evaluations

---
 bindings/python/cconfigspace/features_evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/features_evaluation.py b/bindings/python/cconfigspace/features_evaluation.py
index 0ac43dd..af5cefa 100644
--- a/bindings/python/cconfigspace/features_evaluation.py
+++ b/bindings/python/cconfigspace/features_evaluation.py
@@ -115,6 +115,6 @@ class FeaturesEvaluation(Binding):
 
   def check(self):
     valid = ccs_bool()
-    res = res = ccs_features_evaluation(self.handle, ct.byref(valid))
+    res = ccs_features_evaluation_check(self.handle, ct.byref(valid))
     Error.check(res)
     return False if valid.value == 0 else True
-- 
2.43.0


From 87bab0cc2c9c8fe33c70613bcab08327a560d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:28 +0000
Subject: [PATCH 069/110] fix: get one objective of an objective space

---
 bindings/python/cconfigspace/objective_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/objective_space.py b/bindings/python/cconfigspace/objective_space.py
index 048aed5..6430470 100644
--- a/bindings/python/cconfigspace/objective_space.py
+++ b/bindings/python/cconfigspace/objective_space.py
@@ -75,7 +75,7 @@ class ObjectiveSpace(Context):
 
   def get_objective(self, index):
     v = ccs_expression()
-    t = ObjectiveType()
+    t = ObjectiveType(0)
     res = ccs_objective_space_get_objective(self.handle, index, ct.byref(v), ct.byref(t))
     Error.check(res)
     return (Expression.from_handle(v), t.value)
-- 
2.43.0


From 2b3d0dda716fe84cc2a266bafa8ff8ac770cd74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:29 +0000
Subject: [PATCH 070/110] fix: tell whether a map has a key

---
 bindings/python/cconfigspace/map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/map.py b/bindings/python/cconfigspace/map.py
index e0bb655..4bf99e6 100644
--- a/bindings/python/cconfigspace/map.py
+++ b/bindings/python/cconfigspace/map.py
@@ -24,6 +24,7 @@ class Map(Object):
   def __len__(self):
     v = ct.c_size_t()
     res = ccs_map_get_keys(self.handle, 0, None, ct.byref(v))
+    Error.check(res)
     return v.value
 
   def __getitem__(self, key):
@@ -54,7 +55,7 @@ class Map(Object):
     b = ccs_bool()
     res = ccs_map_exist(self.handle, k, ct.byref(b))
     Error.check(res)
-    return False if b._value.i == ccs_false else True
+    return False if b.value == 0 else True
 
   def keys(self):
     sz = self.__len__()
-- 
2.43.0


From a49866120d3b6a175d1fdda735b3152289966b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:06 +0000
Subject: [PATCH 071/110] fix: give maps and error stacks from their handles

---
 bindings/python/cconfigspace/error_stack.py | 4 ++++
 bindings/python/cconfigspace/map.py         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/bindings/python/cconfigspace/error_stack.py b/bindings/python/cconfigspace/error_stack.py
index e7a08ee..408fc55 100644
--- a/bindings/python/cconfigspace/error_stack.py
+++ b/bindings/python/cconfigspace/error_stack.py
@@ -31,6 +31,10 @@ class ErrorStack(Object):
     else:
       super().__init__(handle = handle, retain = retain, auto_release = auto_release)
 
+  @classmethod
+  def from_handle(cls, handle, retain = True, auto_release = True):
+    return cls(handle = handle, retain = retain, auto_release = auto_release)
+
   def push(self, file, line, func):
     if file:
       file = str.encode(file)
diff --git a/bindings/python/cconfigspace/map.py b/bindings/python/cconfigspace/map.py
index 4bf99e6..9411121 100644
--- a/bindings/python/cconfigspace/map.py
+++ b/bindings/python/cconfigspace/map.py
@@ -21,6 +21,10 @@ class Map(Object):
     else:
       super().__init__(handle = handle, retain = retain, auto_release = auto_release)
 
+  @classmethod
+  def from_handle(cls, handle, retain = True, auto_release = True):
+    return cls(handle = handle, retain = retain, auto_release = auto_release)
+
   def __len__(self):
     v = ct.c_size_t()
     res = ccs_map_get_keys(self.handle, 0, None, ct.byref(v))
-- 
2.43.0


From 75f7b4c237b087985d35769f322443a3f9af0ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:36 +0000
Subject: [PATCH 072/110] fix: count the objective values of an evaluation
 afresh

---
 bindings/python/cconfigspace/evaluation.py          | 5 +----
 bindings/python/cconfigspace/features_evaluation.py | 5 +----
 bindings/python/cconfigspace/tree_evaluation.py     | 5 +----
 3 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/bindings/python/cconfigspace/evaluation.py b/bindings/python/cconfigspace/evaluation.py
index ea3ad9f..664b725 100644
--- a/bindings/python/cconfigspace/evaluation.py
+++ b/bindings/python/cconfigspace/evaluation.py
@@ -79,13 +79,10 @@ class Evaluation(Binding):
 
   @property
   def num_objective_values(self):
-    if hasattr(self, "_num_objective_values"):
-      return self._num_objective_values
     v = ct.c_size_t()
     res = ccs_evaluation_get_objective_values(self.handle, 0, None, ct.byref(v))
     Error.check(res)
-    self._num_objective_values = v.value
-    return self._num_objective_values
+    return v.value
 
   @property
   def objective_values(self):
diff --git a/bindings/python/cconfigspace/features_evaluation.py b/bindings/python/cconfigspace/features_evaluation.py
index af5cefa..c91aa63 100644
--- a/bindings/python/cconfigspace/features_evaluation.py
+++ b/bindings/python/cconfigspace/features_evaluation.py
@@ -89,13 +89,10 @@ class FeaturesEvaluation(Binding):
 
   @property
   def num_objective_values(self):
-    if hasattr(self, "_num_objective_values"):
-      return self._num_objective_values
     v = ct.c_size_t()
     res = ccs_features_evaluation_get_objective_values(self.handle, 0, None, ct.byref(v))
     Error.check(res)
-    self._num_objective_values = v.value
-    return self._num_objective_values
+    return v.value
 
   @property
   def objective_values(self):
diff --git a/bindings/python/cconfigspace/tree_evaluation.py b/bindings/python/cconfigspace/tree_evaluation.py
index c3f0f8b..8d91b90 100644
--- a/bindings/python/cconfigspace/tree_evaluation.py
+++ b/bindings/python/cconfigspace/tree_evaluation.py
@@ -73,13 +73,10 @@ class TreeEvaluation(Binding):
 
   @property
   def num_objective_values(self):
-    if hasattr(self, "_num_objective_values"):
-      return self._num_objective_values
     v = ct.c_size_t()
     res = ccs_tree_evaluation_get_objective_values(self.handle, 0, None, ct.byref(v))
     Error.check(res)
-    self._num_objective_values = v.value
-    return self._num_objective_values
+    return v.value
 
   @property
   def objective_values(self):
-- 
2.43.0


From dab34178d74613f6d3d30756cf04332a7ab807b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:36 +0000
Subject: [PATCH 073/110] fix: give the values of a binding older than some
 parameters

---
 bindings/python/cconfigspace/binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/binding.py b/bindings/python/cconfigspace/binding.py
index d353e38..37a9a30 100644
--- a/bindings/python/cconfigspace/binding.py
+++ b/bindings/python/cconfigspace/binding.py
@@ -133,6 +133,6 @@ class Binding(Object):
     res = {}
     parameters = self.context.parameters
     values = self.values
-    for i in range(len(parameters)):
+    for i in range(len(values)):
       res[parameters[i].name] = values[i]
     return res
-- 
2.43.0


From 95c11a95b66e3e2ddd27c5f06fedd7d88d0ad00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:55 +0000
Subject: [PATCH 074/110] fix: refuse Python integers that do not fit

---
 bindings/python/cconfigspace/base.py         | 9 +++++++++
 bindings/python/cconfigspace/distribution.py | 6 +++---
 bindings/python/cconfigspace/parameter.py    | 4 ++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index eebc738..f4d1318 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -21,6 +21,14 @@ ccs_evaluation_result = ct.c_int32
 ccs_hash              = ct.c_uint32
 ccs_object            = ct.c_void_p
 
+# Integer arguments, ctypes would silently wrap those that do not fit
+class IntParam:
+  @classmethod
+  def from_param(cls, v):
+    if isinstance(v, int) and not -2**63 <= v < 2**63:
+      raise Error(Result(Result.ERROR_INVALID_VALUE))
+    return ccs_int(v)
+
 # Objects
 ccs_rng                 = ccs_object
 ccs_distribution        = ccs_object
@@ -307,6 +315,7 @@ class Datum(ct.Structure):
       self._value.i = 1 if v else 0
       self.flags = 0
     elif isinstance(v, int):
+      IntParam.from_param(v)
       self.type = DataType.INT
       self._value.i = v
       self.flags = 0
diff --git a/bindings/python/cconfigspace/distribution.py b/bindings/python/cconfigspace/distribution.py
index ede4747..6646298 100644
--- a/bindings/python/cconfigspace/distribution.py
+++ b/bindings/python/cconfigspace/distribution.py
@@ -1,6 +1,6 @@
 import ctypes as ct
 from . import libcconfigspace
-from .base import Object, Error, Result, ccs_int, ccs_float, ccs_bool, ccs_rng, ccs_distribution, NumericType, Numeric, CEnumeration, _ccs_get_function, ccs_false, ccs_true
+from .base import Object, Error, Result, ccs_int, IntParam, ccs_float, ccs_bool, ccs_rng, ccs_distribution, NumericType, Numeric, CEnumeration, _ccs_get_function, ccs_false, ccs_true
 from .interval import Interval
 
 class DistributionType(CEnumeration):
@@ -128,7 +128,7 @@ class Distribution(Object):
       Error.check(res)
       return [ [v[j][i].i if self.data_types[i] == NumericType.INT else v[j][i].f for i in range(dim) ] for j in range(count) ]
 
-ccs_create_uniform_int_distribution = _ccs_get_function("ccs_create_uniform_int_distribution", [ccs_int, ccs_int, ScaleType, ccs_int, ct.POINTER(ccs_distribution)])
+ccs_create_uniform_int_distribution = _ccs_get_function("ccs_create_uniform_int_distribution", [IntParam, IntParam, ScaleType, IntParam, ct.POINTER(ccs_distribution)])
 ccs_create_uniform_float_distribution = _ccs_get_function("ccs_create_uniform_float_distribution", [ccs_float, ccs_float, ScaleType, ccs_float, ct.POINTER(ccs_distribution)])
 ccs_uniform_distribution_get_properties = _ccs_get_function("ccs_uniform_distribution_get_properties", [ccs_distribution, ct.POINTER(Numeric), ct.POINTER(Numeric), ct.POINTER(ScaleType), ct.POINTER(Numeric)])
 
@@ -242,7 +242,7 @@ class UniformIntDistribution(UniformDistribution):
 
 UniformDistribution.Int = UniformIntDistribution
 
-ccs_create_normal_int_distribution = _ccs_get_function("ccs_create_normal_int_distribution", [ccs_float, ccs_float, ScaleType, ccs_int, ct.POINTER(ccs_distribution)])
+ccs_create_normal_int_distribution = _ccs_get_function("ccs_create_normal_int_distribution", [ccs_float, ccs_float, ScaleType, IntParam, ct.POINTER(ccs_distribution)])
 ccs_create_normal_float_distribution = _ccs_get_function("ccs_create_normal_float_distribution", [ccs_float, ccs_float, ScaleType, ccs_float, ct.POINTER(ccs_distribution)])
 ccs_normal_distribution_get_properties = _ccs_get_function("ccs_normal_distribution_get_properties", [ccs_distribution, ct.POINTER(ccs_float), ct.POINTER(ccs_float), ct.POINTER(ScaleType), ct.POINTER(Numeric)])
 
diff --git a/bindings/python/cconfigspace/parameter.py b/bindings/python/cconfigspace/parameter.py
index 00790a1..6d1174f 100644
--- a/bindings/python/cconfigspace/parameter.py
+++ b/bindings/python/cconfigspace/parameter.py
@@ -1,6 +1,6 @@
 import ctypes as ct
 from . import libcconfigspace
-from .base import Object, Error, Result, CEnumeration, _ccs_get_function, ccs_parameter, Datum, DatumFix, ccs_distribution, ccs_rng, ccs_float, ccs_int, DataType, ccs_bool, NumericType, Numeric, _ccs_get_id
+from .base import Object, Error, Result, CEnumeration, _ccs_get_function, ccs_parameter, Datum, DatumFix, ccs_distribution, ccs_rng, ccs_float, ccs_int, IntParam, DataType, ccs_bool, NumericType, Numeric, _ccs_get_id
 from .rng import ccs_default_rng
 from .distribution import Distribution
 
@@ -132,7 +132,7 @@ class Parameter(Object):
 
 
 ccs_create_float_numerical_parameter = _ccs_get_function("ccs_create_float_numerical_parameter", [ct.c_char_p, ccs_float, ccs_float, ccs_float, ccs_float, ct.POINTER(ccs_parameter)])
-ccs_create_int_numerical_parameter = _ccs_get_function("ccs_create_int_numerical_parameter", [ct.c_char_p, ccs_int, ccs_int, ccs_int, ccs_int, ct.POINTER(ccs_parameter)])
+ccs_create_int_numerical_parameter = _ccs_get_function("ccs_create_int_numerical_parameter", [ct.c_char_p, IntParam, IntParam, IntParam, IntParam, ct.POINTER(ccs_parameter)])
 ccs_numerical_parameter_get_properties = _ccs_get_function("ccs_numerical_parameter_get_properties", [ccs_parameter, ct.POINTER(NumericType), ct.POINTER(Numeric), ct.POINTER(Numeric), ct.POINTER(Numeric)])
 
 class NumericalParameter(Parameter):
-- 
2.43.0


From ebcc72a4b48b0ec0bcad1bf51e1e27de174bf8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:45 +0000
Subject: [PATCH 075/110] fix: name the number that no enumeration member has

---
 bindings/python/cconfigspace/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index f4d1318..53ee67a 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -123,7 +123,7 @@ class CEnumeration(ct.c_int, metaclass=CEnumerationType):
     if self.value in self._reverse_members_:
       return self._reverse_members_[self.value]
     else:
-      raise ValueError("No enumeration member with value %r" % value)
+      raise ValueError("No enumeration member with value %r" % self.value)
 
   @classmethod
   def from_param(cls, param):
-- 
2.43.0


From d1a91705ff303636de89e4598fb89aeb8b8e3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:45 +0000
Subject: [PATCH 076/110] fix: draw several samples of a multivariate
 distribution

---
 bindings/python/cconfigspace/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/distribution.py b/bindings/python/cconfigspace/distribution.py
index 6646298..c1c3328 100644
--- a/bindings/python/cconfigspace/distribution.py
+++ b/bindings/python/cconfigspace/distribution.py
@@ -124,7 +124,7 @@ class Distribution(Object):
       return list(v)
     else:
       v = (Numeric*dim*count)()
-      res = ccs_distribution_samples(self.handle, rng.handle, count, v)
+      res = ccs_distribution_samples(self.handle, rng.handle, count, ct.cast(v, ct.POINTER(Numeric)))
       Error.check(res)
       return [ [v[j][i].i if self.data_types[i] == NumericType.INT else v[j][i].f for i in range(dim) ] for j in range(count) ]
 
-- 
2.43.0


From 47e8fa515fddd34cb68625dd3e02d9a5d9af4da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:45 +0000
Subject: [PATCH 077/110] fix: evaluate expressions in a context without
 parameters

---
 bindings/python/cconfigspace/expression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/cconfigspace/expression.py b/bindings/python/cconfigspace/expression.py
index 2123841..203a3e1 100644
--- a/bindings/python/cconfigspace/expression.py
+++ b/bindings/python/cconfigspace/expression.py
@@ -148,7 +148,7 @@ class Expression(Object):
     return self._parameters
 
   def eval(self, context = None, values = None):
-    if context and values:
+    if context is not None and values is not None:
       count = context.num_parameters
       if count != len(values):
         raise Error(Result(Result.ERROR_INVALID_VALUE))
@@ -158,7 +158,7 @@ class Expression(Object):
         v[i].set_value(values[i], string_store = ss)
       values = v
       context = context.handle
-    elif context or values:
+    elif context is not None or values is not None:
       raise Error(Result(Result.ERROR_INVALID_VALUE))
     v = Datum()
     res = ccs_expression_eval(self.handle, context, values, ct.byref(v))
@@ -483,7 +483,7 @@ class ExpressionList(Expression):
       super().__init__(handle = handle, retain = retain, auto_release = auto_release)
   
   def eval(self, index, context = None, values = None):
-    if context and values:
+    if context is not None and values is not None:
       count = context.num_parameters
       if count != len(values):
         raise Error(Result(Result.ERROR_INVALID_VALUE))
@@ -493,7 +493,7 @@ class ExpressionList(Expression):
         v[i].set_value(values[i], string_store = ss)
       values = v
       context = context.handle
-    elif context or values:
+    elif context is not None or values is not None:
       raise Error(Result(Result.ERROR_INVALID_VALUE))
     v = Datum()
     res = ccs_expression_list_eval_node(self.handle, context, values, index, ct.byref(v))
-- 
2.43.0


From ccc484c9761a5135246d8ed1daeb79185f1d6185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:22 +0000
Subject: [PATCH 078/110] fix: give no value to the parameters younger than an
 evaluation

---
 src/binding_internal.h    | 31 +++++++++++++++++++++++++++++++
 src/evaluation.c          | 27 ++++++++++++---------------
 src/features_evaluation.c | 27 ++++++++++++---------------
 src/tree_evaluation.c     | 27 ++++++++++++---------------
 4 files changed, 67 insertions(+), 45 deletions(-)

diff --git a/src/binding_internal.h b/src/binding_internal.h
index 36c29b1..e1d9d94 100644
--- a/src/binding_internal.h
+++ b/src/binding_internal.h
@@ -170,6 +170,37 @@ _ccs_binding_set_value_by_parameter(
 	return CCS_RESULT_SUCCESS;
 }
 
+// A binding has no value for the parameters that were added to its context
+// after it was created, these are none.
+static inline ccs_result_t
+_ccs_binding_eval(
+	_ccs_binding_data_t *data,
+	ccs_expression_t     expression,
+	ccs_datum_t         *result_ret)
+{
+	size_t num_parameters;
+	CCS_VALIDATE(
+		ccs_context_get_num_parameters(data->context, &num_parameters));
+	if (data->num_values >= num_parameters) {
+		CCS_VALIDATE(ccs_expression_eval(
+			expression, data->context, data->values, result_ret));
+		return CCS_RESULT_SUCCESS;
+	}
+	ccs_datum_t *values =
+		(ccs_datum_t *)malloc(num_parameters * sizeof(ccs_datum_t));
+	CCS_REFUTE(!values, CCS_RESULT_ERROR_OUT_OF_MEMORY);
+	if (data->num_values)
+		memcpy(values, data->values,
+		       data->num_values * sizeof(ccs_datum_t));
+	for (size_t i = data->num_values; i < num_parameters; i++)
+		values[i] = ccs_none;
+	ccs_result_t err = ccs_expression_eval(
+		expression, data->context, values, result_ret);
+	free(values);
+	CCS_VALIDATE(err);
+	return CCS_RESULT_SUCCESS;
+}
+
 static inline ccs_result_t
 _ccs_binding_hash(_ccs_binding_data_t *data, ccs_hash_t *hash_ret)
 {
diff --git a/src/evaluation.c b/src/evaluation.c
index 4557b16..b103050 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -341,9 +341,9 @@ ccs_evaluation_get_objective_value(
 	ccs_objective_type_t type;
 	CCS_VALIDATE(ccs_objective_space_get_objective(
 		evaluation->data->objective_space, index, &expression, &type));
-	CCS_VALIDATE(ccs_expression_eval(
-		expression, (ccs_context_t)evaluation->data->objective_space,
-		evaluation->data->values, value_ret));
+	CCS_VALIDATE(_ccs_binding_eval(
+		(_ccs_binding_data_t *)evaluation->data, expression,
+		value_ret));
 	return CCS_RESULT_SUCCESS;
 }
 
@@ -369,10 +369,9 @@ ccs_evaluation_get_objective_values(
 			CCS_VALIDATE(ccs_objective_space_get_objective(
 				evaluation->data->objective_space, i,
 				&expression, &type));
-			CCS_VALIDATE(ccs_expression_eval(
-				expression,
-				(ccs_context_t)evaluation->data->objective_space,
-				evaluation->data->values, values + i));
+			CCS_VALIDATE(_ccs_binding_eval(
+				(_ccs_binding_data_t *)evaluation->data,
+				expression, values + i));
 		}
 		for (size_t i = count; i < num_values; i++)
 			values[i] = ccs_none;
@@ -457,14 +456,12 @@ ccs_evaluation_compare(
 		CCS_VALIDATE(ccs_objective_space_get_objective(
 			evaluation->data->objective_space, i, &expression,
 			&type));
-		CCS_VALIDATE(ccs_expression_eval(
-			expression,
-			(ccs_context_t)evaluation->data->objective_space,
-			evaluation->data->values, values));
-		CCS_VALIDATE(ccs_expression_eval(
-			expression,
-			(ccs_context_t)evaluation->data->objective_space,
-			other_evaluation->data->values, values + 1));
+		CCS_VALIDATE(_ccs_binding_eval(
+			(_ccs_binding_data_t *)evaluation->data, expression,
+			values));
+		CCS_VALIDATE(_ccs_binding_eval(
+			(_ccs_binding_data_t *)other_evaluation->data,
+			expression, values + 1));
 		// Maybe relax to allow comparing Numerical values of different
 		// types.
 		if ((values[0].type != CCS_DATA_TYPE_INT &&
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index 354bb8d..f6c6975 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -384,9 +384,9 @@ ccs_features_evaluation_get_objective_value(
 	ccs_objective_type_t type;
 	CCS_VALIDATE(ccs_objective_space_get_objective(
 		evaluation->data->objective_space, index, &expression, &type));
-	CCS_VALIDATE(ccs_expression_eval(
-		expression, (ccs_context_t)evaluation->data->objective_space,
-		evaluation->data->values, value_ret));
+	CCS_VALIDATE(_ccs_binding_eval(
+		(_ccs_binding_data_t *)evaluation->data, expression,
+		value_ret));
 	return CCS_RESULT_SUCCESS;
 }
 
@@ -412,10 +412,9 @@ ccs_features_evaluation_get_objective_values(
 			CCS_VALIDATE(ccs_objective_space_get_objective(
 				evaluation->data->objective_space, i,
 				&expression, &type));
-			CCS_VALIDATE(ccs_expression_eval(
-				expression,
-				(ccs_context_t)evaluation->data->objective_space,
-				evaluation->data->values, values + i));
+			CCS_VALIDATE(_ccs_binding_eval(
+				(_ccs_binding_data_t *)evaluation->data,
+				expression, values + i));
 		}
 		for (size_t i = count; i < num_values; i++)
 			values[i] = ccs_none;
@@ -513,14 +512,12 @@ ccs_features_evaluation_compare(
 		CCS_VALIDATE(ccs_objective_space_get_objective(
 			evaluation->data->objective_space, i, &expression,
 			&type));
-		CCS_VALIDATE(ccs_expression_eval(
-			expression,
-			(ccs_context_t)evaluation->data->objective_space,
-			evaluation->data->values, values));
-		CCS_VALIDATE(ccs_expression_eval(
-			expression,
-			(ccs_context_t)evaluation->data->objective_space,
-			other_evaluation->data->values, values + 1));
+		CCS_VALIDATE(_ccs_binding_eval(
+			(_ccs_binding_data_t *)evaluation->data, expression,
+			values));
+		CCS_VALIDATE(_ccs_binding_eval(
+			(_ccs_binding_data_t *)other_evaluation->data,
+			expression, values + 1));
 		if ((values[0].type != CCS_DATA_TYPE_INT &&
 		     values[0].type != CCS_DATA_TYPE_FLOAT) ||
 		    values[0].type != values[1].type ||
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index 76561a9..bc6e42d 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -346,9 +346,9 @@ ccs_tree_evaluation_get_objective_value(
 	ccs_objective_type_t type;
 	CCS_VALIDATE(ccs_objective_space_get_objective(
 		evaluation->data->objective_space, index, &expression, &type));
-	CCS_VALIDATE(ccs_expression_eval(
-		expression, (ccs_context_t)evaluation->data->objective_space,
-		evaluation->data->values, value_ret));
+	CCS_VALIDATE(_ccs_binding_eval(
+		(_ccs_binding_data_t *)evaluation->data, expression,
+		value_ret));
 	return CCS_RESULT_SUCCESS;
 }
 
@@ -374,10 +374,9 @@ ccs_tree_evaluation_get_objective_values(
 			CCS_VALIDATE(ccs_objective_space_get_objective(
 				evaluation->data->objective_space, i,
 				&expression, &type));
-			CCS_VALIDATE(ccs_expression_eval(
-				expression,
-				(ccs_context_t)evaluation->data->objective_space,
-				evaluation->data->values, values + i));
+			CCS_VALIDATE(_ccs_binding_eval(
+				(_ccs_binding_data_t *)evaluation->data,
+				expression, values + i));
 		}
 		for (size_t i = count; i < num_values; i++)
 			values[i] = ccs_none;
@@ -464,14 +463,12 @@ ccs_tree_evaluation_compare(
 		CCS_VALIDATE(ccs_objective_space_get_objective(
 			evaluation->data->objective_space, i, &expression,
 			&type));
-		CCS_VALIDATE(ccs_expression_eval(
-			expression,
-			(ccs_context_t)evaluation->data->objective_space,
-			evaluation->data->values, values));
-		CCS_VALIDATE(ccs_expression_eval(
-			expression,
-			(ccs_context_t)evaluation->data->objective_space,
-			other_evaluation->data->values, values + 1));
+		CCS_VALIDATE(_ccs_binding_eval(
+			(_ccs_binding_data_t *)evaluation->data, expression,
+			values));
+		CCS_VALIDATE(_ccs_binding_eval(
+			(_ccs_binding_data_t *)other_evaluation->data,
+			expression, values + 1));
 		// Maybe relax to allow comparing Numerical values of different
 		// types.
 		if ((values[0].type != CCS_DATA_TYPE_INT &&
-- 
2.43.0


From a4d2fe132d943870a68c8a21e2e1bf0dd35ef9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:30 +0000
Subject: [PATCH 079/110] fix: drop the default distribution of a parameter

---
 bindings/python/cconfigspace/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/parameter.py b/bindings/python/cconfigspace/parameter.py
index 6d1174f..6582132 100644
--- a/bindings/python/cconfigspace/parameter.py
+++ b/bindings/python/cconfigspace/parameter.py
@@ -85,7 +85,7 @@ class Parameter(Object):
     v = ccs_distribution()
     res = ccs_parameter_get_default_distribution(self.handle, ct.byref(v))
     Error.check(res)
-    self._default_distribution = Distribution.from_handle(v)
+    self._default_distribution = Distribution.from_handle(v, retain = False)
     return self._default_distribution
 
   def check_value(self, value):
-- 
2.43.0


From ebb083d86afeda066181e1c813b87bb9e574a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:12 +0000
Subject: [PATCH 080/110] fix: give the bounds of multivariate distributions

---
 bindings/python/cconfigspace/distribution.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bindings/python/cconfigspace/distribution.py b/bindings/python/cconfigspace/distribution.py
index c1c3328..521b387 100644
--- a/bindings/python/cconfigspace/distribution.py
+++ b/bindings/python/cconfigspace/distribution.py
@@ -79,15 +79,20 @@ class Distribution(Object):
   def bounds(self):
     if hasattr(self, "_bounds"):
       return self._bounds
-    v = Interval()
-    res = ccs_distribution_get_bounds(self.handle, ct.byref(v))
+    dim = self.dimension
+    v = (Interval * dim)()
+    res = ccs_distribution_get_bounds(self.handle, v)
     Error.check(res)
-    self._bounds = v
-    return v
+    self._bounds = v[0] if dim == 1 else list(v)
+    return self._bounds
 
   def is_oversampling(self, interval):
+    intervals = [interval] if isinstance(interval, Interval) else interval
+    dim = self.dimension
+    if len(intervals) != dim:
+      raise Error(Result(Result.ERROR_INVALID_VALUE))
     v = ccs_bool()
-    res = ccs_distribution_check_oversampling(self.handle, ct.byref(interval), ct.byref(v))
+    res = ccs_distribution_check_oversampling(self.handle, (Interval * dim)(*intervals), ct.byref(v))
     Error.check(res)
     return False if v.value == ccs_false else True
 
-- 
2.43.0


From e0d5c27820a539489b309b5de135ceda526d78b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:12 +0000
Subject: [PATCH 081/110] fix: keep destruction callbacks until they are called

---
 bindings/python/cconfigspace/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index 53ee67a..54703d8 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -727,8 +727,12 @@ def _set_destroy_callback(handle, callback, user_data = None):
   if callback is None:
     raise Error(Result(Result.ERROR_INVALID_VALUE))
   def cb_wrapper(obj, data):
-    callback(Object.from_handle(obj), data)
+    callback(Object.from_handle(ccs_object(obj)), data)
   cb_wrapper_func = ccs_object_destroy_callback_type(cb_wrapper)
+  # Callbacks are called in reverse order, the callback that forgets about the
+  # object has to be the first one attached.
+  if handle.value not in _data_store:
+    _register_destroy_callback(handle)
   res = ccs_object_set_destroy_callback(handle, cb_wrapper_func, user_data)
   Error.check(res)
   _register_callback(handle, [callback, cb_wrapper, cb_wrapper_func, user_data])
-- 
2.43.0


From 648911b35b4800b48a476a2cf92a071c774caeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:45 +0000
Subject: [PATCH 082/110] fix: forget about a tuner whose delete callback
 raises

---
 bindings/python/cconfigspace/features_tuner.py | 8 +++++---
 bindings/python/cconfigspace/tree_space.py     | 8 +++++---
 bindings/python/cconfigspace/tree_tuner.py     | 8 +++++---
 bindings/python/cconfigspace/tuner.py          | 8 +++++---
 4 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/bindings/python/cconfigspace/features_tuner.py b/bindings/python/cconfigspace/features_tuner.py
index 73fe211..4461d83 100644
--- a/bindings/python/cconfigspace/features_tuner.py
+++ b/bindings/python/cconfigspace/features_tuner.py
@@ -185,9 +185,11 @@ def _wrap_user_defined_features_tuner_callbacks(delete, ask, tell, get_optima, g
   def delete_wrapper(tun):
     try:
       tun = ct.cast(tun, ccs_features_tuner)
-      if delete is not None:
-        delete(Object.from_handle(tun))
-      _unregister_vector(tun)
+      try:
+        if delete is not None:
+          delete(Object.from_handle(tun))
+      finally:
+        _unregister_vector(tun)
       return Result.SUCCESS
     except Exception as e:
       return Error.set_error(e)
diff --git a/bindings/python/cconfigspace/tree_space.py b/bindings/python/cconfigspace/tree_space.py
index b91fa8c..4e45642 100644
--- a/bindings/python/cconfigspace/tree_space.py
+++ b/bindings/python/cconfigspace/tree_space.py
@@ -158,9 +158,11 @@ def _wrap_user_defined_callbacks(delete, get_child, serialize, deserialize):
   def delete_wrapper(ts):
     try:
       ts = ct.cast(ts, ccs_tree_space)
-      if delete is not None:
-        delete(Object.from_handle(ts))
-      _unregister_vector(ts)
+      try:
+        if delete is not None:
+          delete(Object.from_handle(ts))
+      finally:
+        _unregister_vector(ts)
       return Result.SUCCESS
     except Exception as e:
       return Error.set_error(e)
diff --git a/bindings/python/cconfigspace/tree_tuner.py b/bindings/python/cconfigspace/tree_tuner.py
index 9561b0d..421ffc5 100644
--- a/bindings/python/cconfigspace/tree_tuner.py
+++ b/bindings/python/cconfigspace/tree_tuner.py
@@ -169,9 +169,11 @@ def _wrap_user_defined_tree_tuner_callbacks(delete, ask, tell, get_optima, get_h
   def delete_wrapper(tun):
     try:
       tun = ct.cast(tun, ccs_tree_tuner)
-      if delete is not None:
-        delete(Object.from_handle(tun))
-      _unregister_vector(tun)
+      try:
+        if delete is not None:
+          delete(Object.from_handle(tun))
+      finally:
+        _unregister_vector(tun)
       return Result.SUCCESS
     except Exception as e:
       return Error.set_error(e)
diff --git a/bindings/python/cconfigspace/tuner.py b/bindings/python/cconfigspace/tuner.py
index d15b0c0..8450ec8 100644
--- a/bindings/python/cconfigspace/tuner.py
+++ b/bindings/python/cconfigspace/tuner.py
@@ -169,9 +169,11 @@ def _wrap_user_defined_tuner_callbacks(delete, ask, tell, get_optima, get_histor
   def delete_wrapper(tun):
     try:
       tun = ct.cast(tun, ccs_tuner)
-      if delete is not None:
-        delete(Object.from_handle(tun))
-      _unregister_vector(tun)
+      try:
+        if delete is not None:
+          delete(Object.from_handle(tun))
+      finally:
+        _unregister_vector(tun)
       return Result.SUCCESS
     except Exception as e:
       return Error.set_error(e)
-- 
2.43.0


From 6af5c213b8315ceb15d39bac5ae68711e879a239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:45 +0000
Subject: [PATCH 083/110] fix: return the data of a dynamic tree space

---
 bindings/python/cconfigspace/tree_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/tree_space.py b/bindings/python/cconfigspace/tree_space.py
index 4e45642..8ca473f 100644
--- a/bindings/python/cconfigspace/tree_space.py
+++ b/bindings/python/cconfigspace/tree_space.py
@@ -289,7 +289,7 @@ class DynamicTreeSpace(TreeSpace):
       self._tree_space_data = ct.cast(v, ct.py_object).value
     else:
       self._tree_space_data = None
-    return self._tuner_data
+    return self._tree_space_data
 
 TreeSpace.Dynamic = DynamicTreeSpace
 
-- 
2.43.0


From c5cd98f821e44f271ab22be2098001d079ceab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:45 +0000
Subject: [PATCH 084/110] fix: let objects whose creation fails go

---
 bindings/python/cconfigspace/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index 54703d8..90896fe 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -452,6 +452,9 @@ version_string = ccs_get_version_string().decode()
 
 class Object:
 
+  # for objects whose creation fails
+  auto_release = False
+
   def __init__(self, handle, retain = False, auto_release = True):
     if handle is None:
       raise Error(Result(Result.ERROR_INVALID_OBJECT))
-- 
2.43.0


From 57432c48803947685cde59f4aa59c247fc5efa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:18 +0000
Subject: [PATCH 085/110] fix: restore user-defined tuners and dynamic tree
 spaces that have user data

---
 bindings/python/cconfigspace/base.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index 90896fe..f70358d 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -676,28 +676,34 @@ _default_user_data_deserializer = _json_user_data_deserializer_func
 # Delete wrappers are responsible for deregistering the object data_store
 def _register_vector(handle, vector_data):
   value = handle.value
-  if value in _data_store:
-    raise Error(Result(Result.ERROR_INVALID_VALUE))
-  _data_store[value] = dict.fromkeys(['callbacks', 'user_data', 'serialize_calback', 'strings'])
-  _data_store[value]['callbacks'] = vector_data
-  _data_store[value]['strings'] = []
+  # User data may have been attached while the object was deserialized
+  if value not in _data_store:
+    _register_data(handle)
+  _data_store[value]['vector'] = vector_data
 
+# Objects that fail to be deserialized are deleted before they are registered
 def _unregister_vector(handle):
-  value = handle.value
-  del _data_store[value]
+  _data_store.pop(handle.value, None)
+
+def _register_data(handle):
+  data = dict.fromkeys(['vector', 'callbacks', 'user_data', 'serialize_calback', 'strings'])
+  data['callbacks'] = []
+  data['strings'] = []
+  _data_store[handle.value] = data
 
 # If objects don't have a user-defined del operation, then the first time a
 # data needs to be registered a destruction callback is attached.
 def _register_destroy_callback(handle):
   value = handle.value
   def cb(obj, data):
-    del _data_store[value]
+    # The vector is needed until the object is deleted
+    if _data_store[value]['vector'] is None:
+      del _data_store[value]
   cb_func = ccs_object_destroy_callback_type(cb)
   res = ccs_object_set_destroy_callback(handle, cb_func, None)
   Error.check(res)
-  _data_store[value] = dict.fromkeys(['callbacks', 'user_data', 'serialize_calback', 'strings'])
-  _data_store[value]['callbacks'] = [ [ cb, cb_func ] ]
-  _data_store[value]['strings'] = []
+  _register_data(handle)
+  _data_store[value]['callbacks'].append([ cb, cb_func ])
 
 def _register_callback(handle, callback_data):
   value = handle.value
-- 
2.43.0


From 033bffd3ac0851c72528e4aa905c496981c55447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:30 +0000
Subject: [PATCH 086/110] fix: pass history, optima and state to the
 deserialize callbacks

---
 bindings/python/cconfigspace/features_tuner.py | 6 +++---
 bindings/python/cconfigspace/tree_space.py     | 2 +-
 bindings/python/cconfigspace/tree_tuner.py     | 6 +++---
 bindings/python/cconfigspace/tuner.py          | 6 +++---
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/bindings/python/cconfigspace/features_tuner.py b/bindings/python/cconfigspace/features_tuner.py
index 4461d83..397030f 100644
--- a/bindings/python/cconfigspace/features_tuner.py
+++ b/bindings/python/cconfigspace/features_tuner.py
@@ -312,15 +312,15 @@ def _wrap_user_defined_features_tuner_callbacks(delete, ask, tell, get_optima, g
         if p_h.value is None:
           history = []
         else:
-          history = [FeaturesEvaluation.from_handle(ccs_features_evaluation(p_h[i])) for i in range(size_history)]
+          history = [FeaturesEvaluation.from_handle(ccs_features_evaluation(p_history[i])) for i in range(size_history)]
         if p_o.value is None:
           optima = []
         else:
-          optima = [FeaturesEvaluation.from_handle(ccs_features_evaluation(p_o[i])) for i in range(num_optima)]
+          optima = [FeaturesEvaluation.from_handle(ccs_features_evaluation(p_optima[i])) for i in range(num_optima)]
         if p_s.value is None:
           state = None
         else:
-          state = ct.cast(p_s, POINTER(c_byte * state_size))
+          state = ct.cast(p_s, ct.POINTER(ct.c_byte * state_size))
         deserialize(FeaturesTuner.from_handle(tun), history, optima, state)
         return Result.SUCCESS
       except Exception as e:
diff --git a/bindings/python/cconfigspace/tree_space.py b/bindings/python/cconfigspace/tree_space.py
index 8ca473f..6d0ee1d 100644
--- a/bindings/python/cconfigspace/tree_space.py
+++ b/bindings/python/cconfigspace/tree_space.py
@@ -206,7 +206,7 @@ def _wrap_user_defined_callbacks(delete, get_child, serialize, deserialize):
         if p_s.value is None:
           state = None
         else:
-          state = ct.cast(p_s, POINTER(c_byte * state_size))
+          state = ct.cast(p_s, ct.POINTER(ct.c_byte * state_size))
         deserialize(TreeSpace.from_handle(ts), state)
         return Result.SUCCESS
       except Exception as e:
diff --git a/bindings/python/cconfigspace/tree_tuner.py b/bindings/python/cconfigspace/tree_tuner.py
index 421ffc5..8cc2b0f 100644
--- a/bindings/python/cconfigspace/tree_tuner.py
+++ b/bindings/python/cconfigspace/tree_tuner.py
@@ -296,15 +296,15 @@ def _wrap_user_defined_tree_tuner_callbacks(delete, ask, tell, get_optima, get_h
         if p_h.value is None:
           history = []
         else:
-          history = [TreeEvaluation.from_handle(ccs_tree_evaluation(p_h[i])) for i in range(size_history)]
+          history = [TreeEvaluation.from_handle(ccs_tree_evaluation(p_history[i])) for i in range(size_history)]
         if p_o.value is None:
           optima = []
         else:
-          optima = [TreeEvaluation.from_handle(ccs_tree_evaluation(p_o[i])) for i in range(num_optima)]
+          optima = [TreeEvaluation.from_handle(ccs_tree_evaluation(p_optima[i])) for i in range(num_optima)]
         if p_s.value is None:
           state = None
         else:
-          state = ct.cast(p_s, POINTER(c_byte * state_size))
+          state = ct.cast(p_s, ct.POINTER(ct.c_byte * state_size))
         deserialize(TreeTuner.from_handle(tun), history, optima, state)
         return Result.SUCCESS
       except Exception as e:
diff --git a/bindings/python/cconfigspace/tuner.py b/bindings/python/cconfigspace/tuner.py
index 8450ec8..e7799fe 100644
--- a/bindings/python/cconfigspace/tuner.py
+++ b/bindings/python/cconfigspace/tuner.py
@@ -296,15 +296,15 @@ def _wrap_user_defined_tuner_callbacks(delete, ask, tell, get_optima, get_histor
         if p_h.value is None:
           history = []
         else:
-          history = [Evaluation.from_handle(ccs_evaluation(p_h[i])) for i in range(size_history)]
+          history = [Evaluation.from_handle(ccs_evaluation(p_history[i])) for i in range(size_history)]
         if p_o.value is None:
           optima = []
         else:
-          optima = [Evaluation.from_handle(ccs_evaluation(p_o[i])) for i in range(num_optima)]
+          optima = [Evaluation.from_handle(ccs_evaluation(p_optima[i])) for i in range(num_optima)]
         if p_s.value is None:
           state = None
         else:
-          state = ct.cast(p_s, POINTER(c_byte * state_size))
+          state = ct.cast(p_s, ct.POINTER(ct.c_byte * state_size))
         deserialize(Tuner.from_handle(tun), history, optima, state)
         return Result.SUCCESS
       except Exception as e:
-- 
2.43.0


From cae03dbf53de4dcfd2f5a53d636aa3a5e94ab234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:30 +0000
Subject: [PATCH 087/110] fix: pass usable features to the callbacks of
 features tuners

---
 bindings/python/cconfigspace/features_tuner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/cconfigspace/features_tuner.py b/bindings/python/cconfigspace/features_tuner.py
index 397030f..c6f001b 100644
--- a/bindings/python/cconfigspace/features_tuner.py
+++ b/bindings/python/cconfigspace/features_tuner.py
@@ -199,7 +199,7 @@ def _wrap_user_defined_features_tuner_callbacks(delete, ask, tell, get_optima, g
       tun = ct.cast(tun, ccs_features_tuner)
       p_confs = ct.cast(p_configurations, ct.c_void_p)
       p_c = ct.cast(p_count, ct.c_void_p)
-      (configurations, count_ret) = ask(FeaturesTuner.from_handle(tun), Features.from_handle(features), count if p_confs.value else None)
+      (configurations, count_ret) = ask(FeaturesTuner.from_handle(tun), Features.from_handle(ccs_features(features)), count if p_confs.value else None)
       if p_confs.value is not None and count < count_ret:
         raise Error(Result(Result.ERROR_INVALID_VALUE))
       if p_confs.value is not None:
@@ -234,7 +234,7 @@ def _wrap_user_defined_features_tuner_callbacks(delete, ask, tell, get_optima, g
       tun = ct.cast(tun, ccs_features_tuner)
       p_evals = ct.cast(p_evaluations, ct.c_void_p)
       p_c = ct.cast(p_count, ct.c_void_p)
-      optima = get_optima(FeaturesTuner.from_handle(tun), Features.from_handle(features) if features else None)
+      optima = get_optima(FeaturesTuner.from_handle(tun), Features.from_handle(ccs_features(features)) if features else None)
       count_ret = len(optima)
       if p_evals.value is not None and count < count_ret:
         raise Error(Result(Result.ERROR_INVALID_VALUE))
@@ -254,7 +254,7 @@ def _wrap_user_defined_features_tuner_callbacks(delete, ask, tell, get_optima, g
       tun = ct.cast(tun, ccs_features_tuner)
       p_evals = ct.cast(p_evaluations, ct.c_void_p)
       p_c = ct.cast(p_count, ct.c_void_p)
-      history = get_history(FeaturesTuner.from_handle(tun), Features.from_handle(features) if features else None)
+      history = get_history(FeaturesTuner.from_handle(tun), Features.from_handle(ccs_features(features)) if features else None)
       count_ret = (len(history) if history else 0)
       if p_evals.value is not None and count < count_ret:
         raise Error(Result(Result.ERROR_INVALID_VALUE))
@@ -273,7 +273,7 @@ def _wrap_user_defined_features_tuner_callbacks(delete, ask, tell, get_optima, g
     def suggest_wrapper(tun, features, p_configuration):
       try:
         tun = ct.cast(tun, ccs_features_tuner)
-        configuration = suggest(FeaturesTuner.from_handle(tun), Features.from_handle(features))
+        configuration = suggest(FeaturesTuner.from_handle(tun), Features.from_handle(ccs_features(features)))
         res = ccs_retain_object(configuration.handle)
         Error.check(res)
         p_configuration[0] = configuration.handle.value
-- 
2.43.0


From 1bfe4c7ba6ab6e9872a8ee1066d2cd0b152f13e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:30 +0000
Subject: [PATCH 088/110] fix: report exceptions without a message

---
 bindings/python/cconfigspace/error_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/error_stack.py b/bindings/python/cconfigspace/error_stack.py
index 408fc55..2d9e7e9 100644
--- a/bindings/python/cconfigspace/error_stack.py
+++ b/bindings/python/cconfigspace/error_stack.py
@@ -19,7 +19,7 @@ class ErrorStack(Object):
   def __init__(self, handle = None, retain = False, auto_release = True,
                error = None, message = None):
     if handle is None:
-      if message:
+      if message is not None:
         message = str.encode(message.replace("%", "%%"))
       msg = ct.c_char_p(message)
       handle = ccs_error_stack()
-- 
2.43.0


From 193a73a396e2228a5dbd1eb3cc22f1919c8969bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:30 +0000
Subject: [PATCH 089/110] fix: report exceptions whose text cannot be had or
 encoded

---
 bindings/python/cconfigspace/base.py        | 6 +++++-
 bindings/python/cconfigspace/error_stack.py | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index f70358d..39b7f37 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -379,7 +379,11 @@ class Error(Exception):
       else:
         stack = ErrorStack(error = exc._code)
     else:
-      stack = ErrorStack(error = Result.ERROR_EXTERNAL, message = str(exc))
+      try:
+        message = str(exc)
+      except Exception:
+        message = type(exc).__name__
+      stack = ErrorStack(error = Result.ERROR_EXTERNAL, message = message)
     for s in traceback.extract_tb(sys.exc_info()[2]):
       stack.push(s.filename, s.lineno, s.name)
     set_thread_error(stack)
diff --git a/bindings/python/cconfigspace/error_stack.py b/bindings/python/cconfigspace/error_stack.py
index 2d9e7e9..70b977d 100644
--- a/bindings/python/cconfigspace/error_stack.py
+++ b/bindings/python/cconfigspace/error_stack.py
@@ -20,7 +20,7 @@ class ErrorStack(Object):
                error = None, message = None):
     if handle is None:
       if message is not None:
-        message = str.encode(message.replace("%", "%%"))
+        message = message.replace("%", "%%").encode(errors = "backslashreplace")
       msg = ct.c_char_p(message)
       handle = ccs_error_stack()
       res = ccs_create_error_stack(ct.byref(handle), error, msg)
@@ -37,9 +37,9 @@ class ErrorStack(Object):
 
   def push(self, file, line, func):
     if file:
-      file = str.encode(file)
+      file = file.encode(errors = "backslashreplace")
     if func:
-      func = str.encode(func)
+      func = func.encode(errors = "backslashreplace")
     fil = ct.c_char_p(file)
     fun = ct.c_char_p(func)
     res = ccs_error_stack_push(self.handle, fil, line, fun);
-- 
2.43.0


From 3125e8c4f16bdfeea0ae153da141b400d042fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:07 +0000
Subject: [PATCH 090/110] fix: read and write what is given, empty or zero

---
 bindings/python/cconfigspace/base.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index 39b7f37..8ea67bb 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -546,7 +546,7 @@ class Object:
   def serialize(self, format = 'binary', path = None, file_descriptor = None, callback = None, callback_data = None):
     if format != 'binary':
       raise Error(Result(Result.ERROR_INVALID_VALUE))
-    if path and file_descriptor:
+    if path is not None and file_descriptor is not None:
       raise Error(Result(Result.ERROR_INVALID_VALUE))
     options = [SerializeOption.END]
     if callback:
@@ -555,13 +555,13 @@ class Object:
       options = [SerializeOption.CALLBACK, cb_wrapper_func, ct.py_object(callback_data)] + options
     elif _default_user_data_serializer:
       options = [SerializeOption.CALLBACK, _default_user_data_serializer, ct.py_object()] + options
-    if path:
+    if path is not None:
       p = str.encode(path)
       pp = ct.c_char_p(p)
       res = ccs_object_serialize(self.handle, SerializeFormat.BINARY, SerializeOperation.FILE, pp, *options)
       Error.check(res)
       return None
-    elif file_descriptor:
+    elif file_descriptor is not None:
       fd = ct.c_int(file_descriptor)
       res = ccs_object_serialize(self.handle, SerializeFormat.BINARY, SerializeOperation.FILE_DESCRIPTOR, fd, *options)
       Error.check(res)
@@ -580,21 +580,21 @@ class Object:
     if format != 'binary':
       raise Error(Result(Result.ERROR_INVALID_VALUE))
     mode_count = 0;
-    if path:
+    if path is not None:
       mode_count += 1
-    if buffer:
+    if buffer is not None:
       mode_count += 1
-    if file_descriptor:
+    if file_descriptor is not None:
       mode_count += 1
     if not mode_count == 1:
       raise Error(Result(Result.ERROR_INVALID_VALUE))
     o = ccs_object(0)
     options = [DeserializeOption.END]
-    if handle_map:
+    if handle_map is not None:
       options = [DeserializeOption.HANDLE_MAP, handle_map.handle] + options
-    if vector:
+    if vector is not None:
       options = [DeserializeOption.VECTOR, ct.byref(vector)] + options
-    if data:
+    if data is not None:
       options = [DeserializeOption.DATA, ct.py_object(data)] + options
     if callback:
       cb_wrapper = _get_deserialize_callback_wrapper(callback)
@@ -602,14 +602,14 @@ class Object:
       options = [DeserializeOption.CALLBACK, cb_wrapper_func, ct.py_object(callback_data)] + options
     elif _default_user_data_deserializer:
       options = [DeserializeOption.CALLBACK, _default_user_data_deserializer, ct.py_object()] + options
-    if buffer:
+    if buffer is not None:
       s = ct.c_size_t(ct.sizeof(buffer))
       res = ccs_object_deserialize(ct.byref(o), SerializeFormat.BINARY, SerializeOperation.MEMORY, s, buffer, *options)
-    elif path:
+    elif path is not None:
       p = str.encode(path)
       pp = ct.c_char_p(p)
       res = ccs_object_deserialize(ct.byref(o), SerializeFormat.BINARY, SerializeOperation.FILE, pp, *options)
-    elif file_descriptor:
+    elif file_descriptor is not None:
       fd = ct.c_int(file_descriptor)
       res = ccs_object_deserialize(ct.byref(o), SerializeFormat.BINARY, SerializeOperation.FILE_DESCRIPTOR, fd, *options)
     else:
@@ -733,8 +733,8 @@ def _register_serialize_callback(handle, callback_data):
     _register_destroy_callback(handle)
   _data_store[value]['serialize_calback'] = callback_data
 
-def deserialize(format = 'binary', handle_map = None, path = None, buffer = None, callback = None, callback_data = None):
-  return Object.deserialize(format = format, handle_map = handle_map, path = path, buffer = buffer, callback = callback, callback_data = callback_data)
+def deserialize(format = 'binary', handle_map = None, path = None, buffer = None, file_descriptor = None, callback = None, callback_data = None):
+  return Object.deserialize(format = format, handle_map = handle_map, path = path, buffer = buffer, file_descriptor = file_descriptor, callback = callback, callback_data = callback_data)
 
 def _set_destroy_callback(handle, callback, user_data = None):
   if callback is None:
-- 
2.43.0


From 7631e868bfe4cee427e76befa2afa22d3da26fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:11 +0000
Subject: [PATCH 091/110] fix: candidates of ranges in the Kokkos connector

---
 connectors/kokkos/ccs-kokkos-connector.cpp | 43 +++++++++++++---------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/connectors/kokkos/ccs-kokkos-connector.cpp b/connectors/kokkos/ccs-kokkos-connector.cpp
index e0135a2..edbd964 100644
--- a/connectors/kokkos/ccs-kokkos-connector.cpp
+++ b/connectors/kokkos/ccs-kokkos-connector.cpp
@@ -3,6 +3,7 @@
 #include <string>
 #include <iostream>
 #include <cassert>
+#include <cmath>
 #include <map>
 #include <set>
 #include <stack>
@@ -40,8 +41,6 @@
 static int64_t ccs_time = 0;
 #endif
 
-static constexpr const double epsilon = 1E-24;
-
 using namespace Kokkos::Tools::Experimental;
 
 // initialize the stack to true, so it should never be empty.
@@ -273,17 +272,26 @@ variable_info_to_parameter(const char *name, VariableInfo *info)
 			  assert(0.0 <= step);
 			  if (info->candidates.range.openLower) {
 				  if (step == 0.0)
-					  lower = lower + epsilon;
+					  lower = nextafter(
+						  lower, CCS_INFINITY);
 				  else
 					  lower = lower + step;
 			  }
-			  if (!info->candidates.range.openUpper) {
-				  if (step == 0.0)
-					  upper = upper + epsilon;
-				  else // this is dubious/would require
-				       // verification
-					  upper = upper + step;
-			  }
+			  if (step > 0.0) {
+				  // one step after the last value
+				  ccs_float_t count  = (upper - lower) / step;
+				  ccs_float_t nearby = round(count);
+				  bool        exact  = fabs(count - nearby) <=
+					       1E-9 * fmax(1.0, nearby);
+				  if (!exact)
+					  count = floor(count) + 1.0;
+				  else if (info->candidates.range.openUpper)
+					  count = nearby;
+				  else
+					  count = nearby + 1.0;
+				  upper = lower + count * step;
+			  } else if (!info->candidates.range.openUpper)
+				  upper = nextafter(upper, CCS_INFINITY);
 			  CCS_CHECK(ccs_create_numerical_parameter(
 				  name, CCS_NUMERIC_TYPE_FLOAT, lower, upper,
 				  step, lower, &ret));
@@ -312,13 +320,14 @@ variable_info_to_parameter(const char *name, VariableInfo *info)
 				  else
 					  lower = lower + step;
 			  }
-			  if (!info->candidates.range.openUpper) {
-				  if (step == 0)
-					  upper = upper + epsilon;
-				  else // this is dubious/would require
-				       // verification
-					  upper = upper + step;
-			  }
+			  if (!info->candidates.range.openUpper &&
+			      upper < CCS_INT_MAX)
+				  upper = upper + 1;
+			  // one step after the last value
+			  if (step > 0 && lower < upper)
+				  upper = lower +
+					  ((upper - 1 - lower) / step + 1) *
+						  step;
 			  CCS_CHECK(ccs_create_numerical_parameter(
 				  name, CCS_NUMERIC_TYPE_INT, lower, upper,
 				  step, lower, &ret));
-- 
2.43.0


From 1f566d5d2c28b71319055ff6f693112d95023682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:00 +0000
Subject: [PATCH 092/110] fix: keep a map's entry when its replacement cannot
 be recorded

---
 src/map.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index 432d144..a461f62 100644
--- a/src/map.c
+++ b/src/map.c
@@ -227,9 +227,10 @@ ccs_map_set(ccs_map_t map, ccs_datum_t key, ccs_datum_t value)
 	_ccs_map_set_string(&entry->key, sz1, &mem);
 	_ccs_map_set_string(&entry->value, sz2, &mem);
 
+	// the previous entry goes once the new one is in
+	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	if (old_entry)
 		_ccs_map_remove(d, old_entry);
-	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	return CCS_RESULT_SUCCESS;
 err_mem:
 	free(entry);
-- 
2.43.0


From 4866387ff699bc75d4a09cb2bbf6c86a46a3e198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:57 +0000
Subject: [PATCH 093/110] fix: Ruby: keys, values and pairs of a map

---
 bindings/ruby/lib/cconfigspace/map.rb | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/cconfigspace/map.rb b/bindings/ruby/lib/cconfigspace/map.rb
index b33df84..c775722 100644
--- a/bindings/ruby/lib/cconfigspace/map.rb
+++ b/bindings/ruby/lib/cconfigspace/map.rb
@@ -52,7 +52,7 @@ module CCS
 
     def keys
       sz = size
-      return [] if count == 0
+      return [] if sz == 0
       keys = MemoryPointer::new(:ccs_datum_t, sz)
       CCS.error_check CCS.ccs_map_get_keys(@handle, sz, keys, nil)
       sz.times.collect { |i| Datum::new(keys[i]).value }
@@ -60,7 +60,7 @@ module CCS
 
     def values
       sz = size
-      return [] if count == 0
+      return [] if sz == 0
       values = MemoryPointer::new(:ccs_datum_t, sz)
       CCS.error_check CCS.ccs_map_get_values(@handle, sz, values, nil)
       sz.times.collect { |i| Datum::new(values[i]).value }
@@ -68,7 +68,7 @@ module CCS
 
     def pairs
       sz = size
-      return [] if count == 0
+      return [] if sz == 0
       keys = MemoryPointer::new(:ccs_datum_t, sz)
       values = MemoryPointer::new(:ccs_datum_t, sz)
       CCS.error_check CCS.ccs_map_get_pairs(@handle, sz, keys, values, nil)
-- 
2.43.0


From b3597dc25db1bcf5049ec3efbaf646d98a846e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:57 +0000
Subject: [PATCH 094/110] fix: Ruby: value of a binding by parameter

---
 bindings/ruby/lib/cconfigspace/binding.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/cconfigspace/binding.rb b/bindings/ruby/lib/cconfigspace/binding.rb
index 0dd8221..e50adc8 100644
--- a/bindings/ruby/lib/cconfigspace/binding.rb
+++ b/bindings/ruby/lib/cconfigspace/binding.rb
@@ -43,7 +43,7 @@ module CCS
         name = parameter.inspect
         CCS.error_check CCS.ccs_binding_get_value_by_name(@handle, name, ptr)
       when Parameter
-        CCS.error_check CCS.ccs_binding_get_by_parameter(@handle, parameter.handle, ptr)
+        CCS.error_check CCS.ccs_binding_get_value_by_parameter(@handle, parameter.handle, ptr)
       when Integer
         CCS.error_check CCS.ccs_binding_get_value(@handle, parameter, ptr)
       else
-- 
2.43.0


From f9fdbbabbef47056706c44768cc07935d6446ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:57 +0000
Subject: [PATCH 095/110] fix: Ruby: set_distribution on parameters given by
 name

---
 bindings/ruby/lib/cconfigspace/configuration_space.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/cconfigspace/configuration_space.rb b/bindings/ruby/lib/cconfigspace/configuration_space.rb
index 7faab8e..c61b74b 100644
--- a/bindings/ruby/lib/cconfigspace/configuration_space.rb
+++ b/bindings/ruby/lib/cconfigspace/configuration_space.rb
@@ -60,7 +60,7 @@ module CCS
         when Parameter
           parameter_index(h)
         when String, Symbol
-          parameter_index_by_name(parameter)
+          parameter_index_by_name(h)
         else
           h
         end
-- 
2.43.0


From 446d32273b4415d3a6fee354ba8a39dca895eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:57 +0000
Subject: [PATCH 096/110] fix: Ruby: check several values of a parameter

---
 bindings/ruby/lib/cconfigspace/parameter.rb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/cconfigspace/parameter.rb b/bindings/ruby/lib/cconfigspace/parameter.rb
index ca39776..c206b96 100644
--- a/bindings/ruby/lib/cconfigspace/parameter.rb
+++ b/bindings/ruby/lib/cconfigspace/parameter.rb
@@ -93,11 +93,12 @@ module CCS
     def check_values(vals)
       count = vals.size
       return [] if count == 0
+      ss = []
       values = MemoryPointer::new(:ccs_datum_t, count)
       vals.each_with_index { |v, i| Datum::new(values[i]).set_value(v, string_store: ss) }
       ptr = MemoryPointer::new(:ccs_bool_t, count)
       CCS.error_check CCS.ccs_parameter_check_values(@handle, count, values, ptr)
-      count.times.collect { |i| ptr[i].read_ccs_bool_t == CCS::FALSE ? false : true }
+      ptr.read_array_of_int32(count).collect { |b| b == CCS::FALSE ? false : true }
     end
 
     def sample(distribution: default_distribution, rng: CCS::DefaultRng)
-- 
2.43.0


From 2e1ce0a6049bde7d8f598b8cd36f1527c21e84f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:57 +0000
Subject: [PATCH 097/110] fix: Ruby: do not leak the default distribution of a
 parameter

---
 bindings/ruby/lib/cconfigspace/parameter.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/cconfigspace/parameter.rb b/bindings/ruby/lib/cconfigspace/parameter.rb
index c206b96..65b22c0 100644
--- a/bindings/ruby/lib/cconfigspace/parameter.rb
+++ b/bindings/ruby/lib/cconfigspace/parameter.rb
@@ -80,7 +80,7 @@ module CCS
       @default_distribution ||= begin
         ptr = MemoryPointer::new(:ccs_distribution_t)
         CCS.error_check CCS.ccs_parameter_get_default_distribution(@handle, ptr)
-        Object::from_handle(ptr.read_pointer)
+        Distribution.from_handle(ptr.read_pointer, retain: false)
       end
     end
 
-- 
2.43.0


From 2bc251dfe0fcdf283cad19be40df4d838843811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:57 +0000
Subject: [PATCH 098/110] fix: Ruby: objects given by identifier

---
 bindings/ruby/lib/cconfigspace/base.rb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/cconfigspace/base.rb b/bindings/ruby/lib/cconfigspace/base.rb
index e5f3403..4bed802 100644
--- a/bindings/ruby/lib/cconfigspace/base.rb
+++ b/bindings/ruby/lib/cconfigspace/base.rb
@@ -221,7 +221,8 @@ module CCS
 
   DatumFlags = bitmask FFI::Type::UINT32, :ccs_datum_flags_t, [
     :CCS_DATUM_FLAG_TRANSIENT,
-    :CCS_DATUM_FLAG_UNPOOLED ]
+    :CCS_DATUM_FLAG_UNPOOLED,
+    :CCS_DATUM_FLAG_ID ]
 
   NumericType = enum FFI::Type::INT32, :ccs_numeric_type_t, [
     :CCS_NUMERIC_TYPE_INT, DataType.to_native(:CCS_DATA_TYPE_INT, nil),
-- 
2.43.0


From 0a0933c0c314720c5148d4d9658e567d9bf4d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:57 +0000
Subject: [PATCH 099/110] fix: Ruby: parameters of an expression

---
 bindings/ruby/lib/cconfigspace/expression.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/cconfigspace/expression.rb b/bindings/ruby/lib/cconfigspace/expression.rb
index 39f1a49..083850d 100644
--- a/bindings/ruby/lib/cconfigspace/expression.rb
+++ b/bindings/ruby/lib/cconfigspace/expression.rb
@@ -181,7 +181,7 @@ module CCS
         else
           ptr = MemoryPointer::new(:ccs_parameter_t, count)
           CCS.error_check CCS.ccs_expression_get_parameters(@handle, count, ptr, nil)
-          count.times.collect { |i| Parameters.from_handle(ptr[i].read_ccs_parameter_t) }
+          count.times.collect { |i| Parameter.from_handle(ptr[i].read_pointer) }
         end
       end
     end
-- 
2.43.0


From fed1a8eebba9213f73afb93f6c6b2bcf8d4f7e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:57 +0000
Subject: [PATCH 100/110] fix: Ruby: refuse evaluations with a wrong number of
 values

---
 bindings/ruby/lib/cconfigspace/expression.rb | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/lib/cconfigspace/expression.rb b/bindings/ruby/lib/cconfigspace/expression.rb
index 083850d..55f30b2 100644
--- a/bindings/ruby/lib/cconfigspace/expression.rb
+++ b/bindings/ruby/lib/cconfigspace/expression.rb
@@ -158,13 +158,13 @@ module CCS
     def eval(context: nil, values: nil)
       if values && context
         count = context.num_parameters
-        raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUES if values.size != count
+        raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUE if values.size != count
         ss = []
         p_values = MemoryPointer::new(:ccs_datum_t, count)
         values.each_with_index{ |v, i| Datum::new(p_values[i]).set_value(v, string_store: ss) }
         values = p_values
       elsif values || context
-        raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUES
+        raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUE
       end
       ptr = MemoryPointer::new(:ccs_datum_t)
       CCS.error_check CCS.ccs_expression_eval(@handle, context, values, ptr)
@@ -567,13 +567,13 @@ module CCS
     def eval(index, context: nil, values: nil)
       if values && context
         count = context.num_parameters
-        raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUES if values.size != count
+        raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUE if values.size != count
         ss = []
         p_values = MemoryPointer::new(:ccs_datum_t, count)
         values.each_with_index{ |v, i| Datum::new(p_values[i]).set_value(v, string_store: ss) }
         values = p_values
       elsif values || context
-        raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUES
+        raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUE
       end
       ptr = MemoryPointer::new(:ccs_datum_t)
       CCS.error_check CCS.ccs_expression_list_eval_node(@handle, context, values, index, ptr)
-- 
2.43.0


From 22f891430a94c3f907c5c7638dce86e1b573adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:57 +0000
Subject: [PATCH 101/110] fix: Ruby: text of a variable named by a symbol

---
 bindings/ruby/lib/cconfigspace/expression.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/cconfigspace/expression.rb b/bindings/ruby/lib/cconfigspace/expression.rb
index 55f30b2..ebf4c0b 100644
--- a/bindings/ruby/lib/cconfigspace/expression.rb
+++ b/bindings/ruby/lib/cconfigspace/expression.rb
@@ -542,7 +542,7 @@ module CCS
     end
 
     def to_s
-      parameter.name
+      parameter.name.to_s
     end
   end
 
-- 
2.43.0


From 136ef1ff87bbe206e5a747d700371bfb8ca936fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:58 +0000
Subject: [PATCH 102/110] fix: Ruby: serialization callbacks of user-defined
 tuners and tree spaces

---
 bindings/ruby/lib/cconfigspace/features_tuner.rb | 6 +++---
 bindings/ruby/lib/cconfigspace/tree_space.rb     | 4 ++--
 bindings/ruby/lib/cconfigspace/tree_tuner.rb     | 6 +++---
 bindings/ruby/lib/cconfigspace/tuner.rb          | 6 +++---
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/bindings/ruby/lib/cconfigspace/features_tuner.rb b/bindings/ruby/lib/cconfigspace/features_tuner.rb
index 3bf6358..56c284d 100644
--- a/bindings/ruby/lib/cconfigspace/features_tuner.rb
+++ b/bindings/ruby/lib/cconfigspace/features_tuner.rb
@@ -226,7 +226,7 @@ module CCS
       if serialize
         lambda { |tun, state_size, p_state, p_state_size|
           begin
-            state = serialize(FeaturesTuner.from_handle(tun), state_size == 0 ? true : false)
+            state = serialize.call(FeaturesTuner.from_handle(tun), state_size == 0 ? true : false)
             raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUE if !p_state.null? && state_size < state.size
             p_state.write_bytes(state.read_bytes(state.size)) unless p_state.null?
             Pointer.new(p_state_size).write_size_t(state.size) unless p_state_size.null?
@@ -242,10 +242,10 @@ module CCS
       if deserialize
         lambda { |tun, history_size, p_history, num_optima, p_optima, state_size, p_state|
           begin
-            history = p_history.null? ? [] : history_size.times.collect { |i| FeaturesEvaluation::from_handle(p_p_history.get_pointer(i*8)) }
+            history = p_history.null? ? [] : history_size.times.collect { |i| FeaturesEvaluation::from_handle(p_history.get_pointer(i*8)) }
             optima = p_optima.null? ? [] : num_optima.times.collect { |i| FeaturesEvaluation::from_handle(p_optima.get_pointer(i*8)) }
             state = p_state.null? ? nil : p_state.slice(0, state_size)
-            deserialize(FeaturesTuner.from_handle(tun), history, optima, state)
+            deserialize.call(FeaturesTuner.from_handle(tun), history, optima, state)
             CCSError.to_native(:CCS_RESULT_SUCCESS)
           rescue => e
             CCS.set_error(e)
diff --git a/bindings/ruby/lib/cconfigspace/tree_space.rb b/bindings/ruby/lib/cconfigspace/tree_space.rb
index d8d80d9..7c9ffe2 100644
--- a/bindings/ruby/lib/cconfigspace/tree_space.rb
+++ b/bindings/ruby/lib/cconfigspace/tree_space.rb
@@ -158,7 +158,7 @@ module CCS
       if serialize
         lambda { |ts, state_size, p_state, p_state_size|
           begin
-            state = serialize(TreeSpace.from_handle(ts), state_size == 0 ? true : false)
+            state = serialize.call(TreeSpace.from_handle(ts), state_size == 0 ? true : false)
             raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUE if !p_state.null? && state_size < state.size
             p_state.write_bytes(state.read_bytes(state.size)) unless p_state.null?
             Pointer.new(p_state_size).write_size_t(state.size) unless p_state_size.null?
@@ -175,7 +175,7 @@ module CCS
         lambda { |ts, state_size, p_state|
           begin
             state = p_state.null? ? nil : p_state.slice(0, state_size)
-            deserialize(TreeSpace.from_handle(ts), state)
+            deserialize.call(TreeSpace.from_handle(ts), state)
             CCSError.to_native(:CCS_RESULT_SUCCESS)
           rescue => e
             CCS.set_error(e)
diff --git a/bindings/ruby/lib/cconfigspace/tree_tuner.rb b/bindings/ruby/lib/cconfigspace/tree_tuner.rb
index 2e84fc6..6d2d9c5 100644
--- a/bindings/ruby/lib/cconfigspace/tree_tuner.rb
+++ b/bindings/ruby/lib/cconfigspace/tree_tuner.rb
@@ -225,7 +225,7 @@ module CCS
       if serialize
         lambda { |tun, state_size, p_state, p_state_size|
           begin
-            state = serialize(TreeTuner.from_handle(tun), state_size == 0 ? true : false)
+            state = serialize.call(TreeTuner.from_handle(tun), state_size == 0 ? true : false)
             raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUE if !p_state.null? && state_size < state.size
             p_state.write_bytes(state.read_bytes(state.size)) unless p_state.null?
             Pointer.new(p_state_size).write_size_t(state.size) unless p_state_size.null?
@@ -241,10 +241,10 @@ module CCS
       if deserialize
         lambda { |tun, history_size, p_history, num_optima, p_optima, state_size, p_state|
           begin
-            history = p_history.null? ? [] : history_size.times.collect { |i| TreeEvaluation::from_handle(p_p_history.get_pointer(i*8)) }
+            history = p_history.null? ? [] : history_size.times.collect { |i| TreeEvaluation::from_handle(p_history.get_pointer(i*8)) }
             optima = p_optima.null? ? [] : num_optima.times.collect { |i| TreeEvaluation::from_handle(p_optima.get_pointer(i*8)) }
             state = p_state.null? ? nil : p_state.slice(0, state_size)
-            deserialize(TreeTuner.from_handle(tun), history, optima, state)
+            deserialize.call(TreeTuner.from_handle(tun), history, optima, state)
             CCSError.to_native(:CCS_RESULT_SUCCESS)
           rescue => e
             CCS.set_error(e)
diff --git a/bindings/ruby/lib/cconfigspace/tuner.rb b/bindings/ruby/lib/cconfigspace/tuner.rb
index 3bcd36d..c243347 100644
--- a/bindings/ruby/lib/cconfigspace/tuner.rb
+++ b/bindings/ruby/lib/cconfigspace/tuner.rb
@@ -225,7 +225,7 @@ module CCS
       if serialize
         lambda { |tun, state_size, p_state, p_state_size|
           begin
-            state = serialize(Tuner.from_handle(tun), state_size == 0 ? true : false)
+            state = serialize.call(Tuner.from_handle(tun), state_size == 0 ? true : false)
             raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUE if !p_state.null? && state_size < state.size
             p_state.write_bytes(state.read_bytes(state.size)) unless p_state.null?
             Pointer.new(p_state_size).write_size_t(state.size) unless p_state_size.null?
@@ -241,10 +241,10 @@ module CCS
       if deserialize
         lambda { |tun, history_size, p_history, num_optima, p_optima, state_size, p_state|
           begin
-            history = p_history.null? ? [] : history_size.times.collect { |i| Evaluation::from_handle(p_p_history.get_pointer(i*8)) }
+            history = p_history.null? ? [] : history_size.times.collect { |i| Evaluation::from_handle(p_history.get_pointer(i*8)) }
             optima = p_optima.null? ? [] : num_optima.times.collect { |i| Evaluation::from_handle(p_optima.get_pointer(i*8)) }
             state = p_state.null? ? nil : p_state.slice(0, state_size)
-            deserialize(Tuner.from_handle(tun), history, optima, state)
+            deserialize.call(Tuner.from_handle(tun), history, optima, state)
             CCSError.to_native(:CCS_RESULT_SUCCESS)
           rescue => e
             CCS.set_error(e)
-- 
2.43.0


From 396e4b8692f8efc900a0a23e91a880233ba96b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:13 +0000
Subject: [PATCH 103/110] fix: Ruby: clear the slots a tuner did not fill where
 they are

---
 bindings/ruby/lib/cconfigspace/features_tuner.rb | 2 +-
 bindings/ruby/lib/cconfigspace/tree_tuner.rb     | 2 +-
 bindings/ruby/lib/cconfigspace/tuner.rb          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/cconfigspace/features_tuner.rb b/bindings/ruby/lib/cconfigspace/features_tuner.rb
index 56c284d..f1a1943 100644
--- a/bindings/ruby/lib/cconfigspace/features_tuner.rb
+++ b/bindings/ruby/lib/cconfigspace/features_tuner.rb
@@ -155,7 +155,7 @@ module CCS
             CCS.error_check(err)
             p_configurations.put_pointer(i*8, c.handle)
           }
-          (count_ret...count).each { |i| p_configurations[i].put_pointer(i*8, 0) }
+          (count_ret...count).each { |i| p_configurations.put_pointer(i*8, 0) }
         end
         Pointer.new(p_count).write_size_t(count_ret) unless p_count.null?
         CCSError.to_native(:CCS_RESULT_SUCCESS)
diff --git a/bindings/ruby/lib/cconfigspace/tree_tuner.rb b/bindings/ruby/lib/cconfigspace/tree_tuner.rb
index 6d2d9c5..8bd4efc 100644
--- a/bindings/ruby/lib/cconfigspace/tree_tuner.rb
+++ b/bindings/ruby/lib/cconfigspace/tree_tuner.rb
@@ -154,7 +154,7 @@ module CCS
             CCS.error_check(err)
             p_configurations.put_pointer(i*8, c.handle)
           }
-          (count_ret...count).each { |i| p_configurations[i].put_pointer(i*8, 0) }
+          (count_ret...count).each { |i| p_configurations.put_pointer(i*8, 0) }
         end
         Pointer.new(p_count).write_size_t(count_ret) unless p_count.null?
         CCSError.to_native(:CCS_RESULT_SUCCESS)
diff --git a/bindings/ruby/lib/cconfigspace/tuner.rb b/bindings/ruby/lib/cconfigspace/tuner.rb
index c243347..c83620f 100644
--- a/bindings/ruby/lib/cconfigspace/tuner.rb
+++ b/bindings/ruby/lib/cconfigspace/tuner.rb
@@ -154,7 +154,7 @@ module CCS
             CCS.error_check(err)
             p_configurations.put_pointer(i*8, c.handle)
           }
-          (count_ret...count).each { |i| p_configurations[i].put_pointer(i*8, 0) }
+          (count_ret...count).each { |i| p_configurations.put_pointer(i*8, 0) }
         end
         Pointer.new(p_count).write_size_t(count_ret) unless p_count.null?
         CCSError.to_native(:CCS_RESULT_SUCCESS)
-- 
2.43.0


From 3367021ea49fd507c596a288d3ee0d0b51896822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:11 +0000
Subject: [PATCH 104/110] fix: Ruby: bounds of multivariate distributions

---
 bindings/ruby/lib/cconfigspace/distribution.rb | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/cconfigspace/distribution.rb b/bindings/ruby/lib/cconfigspace/distribution.rb
index 32dbcd0..42f73a8 100644
--- a/bindings/ruby/lib/cconfigspace/distribution.rb
+++ b/bindings/ruby/lib/cconfigspace/distribution.rb
@@ -64,9 +64,11 @@ module CCS
 
     def bounds
       @bounds ||= begin
-        interval = Interval::new(type: :CCS_NUMERIC_TYPE_FLOAT)
-        CCS.error_check CCS.ccs_distribution_get_bounds(@handle, interval)
-        interval
+        dim = dimension
+        ptr = MemoryPointer::new(Interval, dim)
+        intervals = dim.times.collect { |i| Interval::new(ptr[i], type: :CCS_NUMERIC_TYPE_FLOAT) }
+        CCS.error_check CCS.ccs_distribution_get_bounds(@handle, ptr)
+        dim == 1 ? intervals.first : intervals
       end
     end
 
-- 
2.43.0


From 6f9e2ea2f0146da51863c8b8b35afcb04ca0219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:32 +0000
Subject: [PATCH 105/110] fix: Ruby: oversampling of multivariate distributions

---
 bindings/ruby/lib/cconfigspace/distribution.rb | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/lib/cconfigspace/distribution.rb b/bindings/ruby/lib/cconfigspace/distribution.rb
index 42f73a8..dc58899 100644
--- a/bindings/ruby/lib/cconfigspace/distribution.rb
+++ b/bindings/ruby/lib/cconfigspace/distribution.rb
@@ -27,7 +27,7 @@ module CCS
   attach_function :ccs_distribution_get_data_types, [:ccs_distribution_t, :pointer], :ccs_result_t
   attach_function :ccs_distribution_get_dimension, [:ccs_distribution_t, :pointer], :ccs_result_t
   attach_function :ccs_distribution_get_bounds, [:ccs_distribution_t, :pointer], :ccs_result_t
-  attach_function :ccs_distribution_check_oversampling, [:ccs_distribution_t, Interval.by_ref, :pointer], :ccs_result_t
+  attach_function :ccs_distribution_check_oversampling, [:ccs_distribution_t, :pointer, :pointer], :ccs_result_t
   attach_function :ccs_distribution_sample, [:ccs_distribution_t, :ccs_rng_t, :pointer], :ccs_result_t
   attach_function :ccs_distribution_samples, [:ccs_distribution_t, :ccs_rng_t, :size_t, :pointer], :ccs_result_t
 
@@ -73,9 +73,15 @@ module CCS
     end
 
     def oversampling?(interval)
-      ptr = MemoryPointer::new(:ccs_bool_t)
-      CCS.error_check CCS.ccs_distribution_check_oversampling(@handle, interval, ptr)
-      ptr.read_ccs_bool_t == CCS::FALSE ? false : true
+      intervals = interval.kind_of?(Interval) ? [interval] : interval
+      dim = dimension
+      raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUE if intervals.size != dim
+      p_intervals = MemoryPointer::new(Interval, dim)
+      intervals.each_with_index { |itv, i| p_intervals[i].put_bytes(0, itv.to_ptr.read_bytes(Interval.size)) }
+      ptr = MemoryPointer::new(:ccs_bool_t, dim)
+      CCS.error_check CCS.ccs_distribution_check_oversampling(@handle, p_intervals, ptr)
+      res = ptr.read_array_of_int32(dim).collect { |b| b == CCS::FALSE ? false : true }
+      dim == 1 ? res.first : res
     end
 
     def sample(rng)
-- 
2.43.0


From 07cbd2a5b7fe53838050bf687b5df9998dfa7205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:41 +0000
Subject: [PATCH 106/110] fix: Python: oversampling of multivariate
 distributions

---
 bindings/python/cconfigspace/distribution.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bindings/python/cconfigspace/distribution.py b/bindings/python/cconfigspace/distribution.py
index 521b387..30da3a4 100644
--- a/bindings/python/cconfigspace/distribution.py
+++ b/bindings/python/cconfigspace/distribution.py
@@ -91,10 +91,11 @@ class Distribution(Object):
     dim = self.dimension
     if len(intervals) != dim:
       raise Error(Result(Result.ERROR_INVALID_VALUE))
-    v = ccs_bool()
-    res = ccs_distribution_check_oversampling(self.handle, (Interval * dim)(*intervals), ct.byref(v))
+    v = (ccs_bool * dim)()
+    res = ccs_distribution_check_oversampling(self.handle, (Interval * dim)(*intervals), v)
     Error.check(res)
-    return False if v.value == ccs_false else True
+    r = [x != ccs_false for x in v]
+    return r[0] if dim == 1 else r
 
   def sample(self, rng):
     dim = self.dimension
-- 
2.43.0


From 9aa493ebed8fdff73c373927c26867dc07c1d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:10 +0000
Subject: [PATCH 107/110] fix: Ruby: number of objective values read each time

---
 bindings/ruby/lib/cconfigspace/evaluation.rb          | 8 +++-----
 bindings/ruby/lib/cconfigspace/features_evaluation.rb | 8 +++-----
 bindings/ruby/lib/cconfigspace/tree_evaluation.rb     | 8 +++-----
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/bindings/ruby/lib/cconfigspace/evaluation.rb b/bindings/ruby/lib/cconfigspace/evaluation.rb
index bd5b09a..f7a0656 100644
--- a/bindings/ruby/lib/cconfigspace/evaluation.rb
+++ b/bindings/ruby/lib/cconfigspace/evaluation.rb
@@ -57,11 +57,9 @@ module CCS
     end
 
     def num_objective_values
-      @num_objective_values ||= begin
-        ptr = MemoryPointer::new(:size_t)
-        CCS.error_check CCS.ccs_evaluation_get_objective_values(@handle, 0, nil, ptr)
-        ptr.read_size_t
-      end
+      ptr = MemoryPointer::new(:size_t)
+      CCS.error_check CCS.ccs_evaluation_get_objective_values(@handle, 0, nil, ptr)
+      ptr.read_size_t
     end
 
     def objective_values
diff --git a/bindings/ruby/lib/cconfigspace/features_evaluation.rb b/bindings/ruby/lib/cconfigspace/features_evaluation.rb
index d8ca4a3..dd73498 100644
--- a/bindings/ruby/lib/cconfigspace/features_evaluation.rb
+++ b/bindings/ruby/lib/cconfigspace/features_evaluation.rb
@@ -48,11 +48,9 @@ module CCS
     end
 
     def num_objective_values
-      @num_objective_values ||= begin
-        ptr = MemoryPointer::new(:size_t)
-        CCS.error_check CCS.ccs_features_evaluation_get_objective_values(@handle, 0, nil, ptr)
-        ptr.read_size_t
-      end
+      ptr = MemoryPointer::new(:size_t)
+      CCS.error_check CCS.ccs_features_evaluation_get_objective_values(@handle, 0, nil, ptr)
+      ptr.read_size_t
     end
 
     def objective_values
diff --git a/bindings/ruby/lib/cconfigspace/tree_evaluation.rb b/bindings/ruby/lib/cconfigspace/tree_evaluation.rb
index b3bed16..4fde096 100644
--- a/bindings/ruby/lib/cconfigspace/tree_evaluation.rb
+++ b/bindings/ruby/lib/cconfigspace/tree_evaluation.rb
@@ -46,11 +46,9 @@ module CCS
     end
 
     def num_objective_values
-      @num_objective_values ||= begin
-        ptr = MemoryPointer::new(:size_t)
-        CCS.error_check CCS.ccs_tree_evaluation_get_objective_values(@handle, 0, nil, ptr)
-        ptr.read_size_t
-      end
+      ptr = MemoryPointer::new(:size_t)
+      CCS.error_check CCS.ccs_tree_evaluation_get_objective_values(@handle, 0, nil, ptr)
+      ptr.read_size_t
     end
 
     def objective_values
-- 
2.43.0


From 76532988bc46db972dbd4e08b0583e1f27524d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:01 +0000
Subject: [PATCH 108/110] fix: Ruby: pass nil and false data on when restoring

---
 bindings/ruby/lib/cconfigspace/base.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/cconfigspace/base.rb b/bindings/ruby/lib/cconfigspace/base.rb
index 4bed802..b84881f 100644
--- a/bindings/ruby/lib/cconfigspace/base.rb
+++ b/bindings/ruby/lib/cconfigspace/base.rb
@@ -717,7 +717,7 @@ module CCS
       options = []
       options.concat [:ccs_deserialize_option_t, :CCS_DESERIALIZE_OPTION_HANDLE_MAP, :ccs_map_t, handle_map.handle] if handle_map
       options.concat [:ccs_deserialize_option_t, :CCS_DESERIALIZE_OPTION_VECTOR, :pointer, vector] if vector
-      options.concat [:ccs_deserialize_option_t, :CCS_DESERIALIZE_OPTION_DATA, :value, data] if data
+      options.concat [:ccs_deserialize_option_t, :CCS_DESERIALIZE_OPTION_DATA, :value, data] if vector || data
       if callback
         cb_wrapper = CCS.get_deserialize_wrapper(&callback)
         options.concat [:ccs_deserialize_option_t, :CCS_DESERIALIZE_OPTION_CALLBACK, :ccs_object_deserialize_callback, cb_wrapper, :value, callback_data]
-- 
2.43.0


From 09e3e0c10f205a0482fb323d515f3ad37aef4747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:01 +0000
Subject: [PATCH 109/110] fix: Ruby: restore user-defined objects that have
 user data

---
 bindings/ruby/lib/cconfigspace/base.rb | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/lib/cconfigspace/base.rb b/bindings/ruby/lib/cconfigspace/base.rb
index b84881f..f527169 100644
--- a/bindings/ruby/lib/cconfigspace/base.rb
+++ b/bindings/ruby/lib/cconfigspace/base.rb
@@ -756,13 +756,13 @@ module CCS
 
   end
 
-  @@data_store = Hash.new { |h, k| h[k] = { callbacks: [], user_data: nil, serialize_calback: nil, strings: [] } }
+  @@data_store = Hash.new { |h, k| h[k] = { callbacks: [], vector: nil, user_data: nil, serialize_calback: nil, strings: [] } }
 
   # Delete wrappers are responsible for deregistering the object data_store
   def self.register_vector(handle, vector_data)
     value = handle.address
-    raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUE if @@data_store.include?(value)
-    @@data_store[value][:callbacks].push vector_data
+    raise CCSError, :CCS_RESULT_ERROR_INVALID_VALUE if @@data_store.include?(value) && @@data_store[value][:vector]
+    @@data_store[value][:vector] = vector_data
   end
 
   def self.unregister_vector(handle)
@@ -775,7 +775,7 @@ module CCS
   def self.register_destroy_callback(handle)
     value = handle.address
     cb = lambda { |_, _|
-      @@data_store.delete(value)
+      @@data_store.delete(value) unless @@data_store.include?(value) && @@data_store[value][:vector]
     }
     CCS.error_check CCS.ccs_object_set_destroy_callback(handle, cb, nil)
     @@data_store[value][:callbacks].push cb
-- 
2.43.0


From 51e0502b641387ca3cbb4bfba7c4e803070de1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:20 +0000
Subject: [PATCH 110/110] fix: Ruby: objects on the handle of an error stack

---
 bindings/ruby/lib/cconfigspace/error_stack.rb | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/ruby/lib/cconfigspace/error_stack.rb b/bindings/ruby/lib/cconfigspace/error_stack.rb
index 8603101..6f3d7cf 100644
--- a/bindings/ruby/lib/cconfigspace/error_stack.rb
+++ b/bindings/ruby/lib/cconfigspace/error_stack.rb
@@ -43,6 +43,10 @@ module CCS
       end
     end
 
+    def self.from_handle(handle, retain: true, auto_release: true)
+      self::new(handle, retain: retain, auto_release: auto_release)
+    end
+
     def push(file, line, func)
       CCS.error_check CCS.ccs_error_stack_push(self.handle, file, line, func)
       CCS.register_string(@handle, file) if file
-- 
2.43.0

