"""What decides each property: the Kani contracts, the Verus units, and the search budget (seconds)."""
KANI = {'C01', 'C02', 'C04', 'C05', 'C08', 'C10', 'C11', 'C12', 'C13', 'C14', 'C20', 'C24'}
# property -> list of (unit, functions of the unit the property rests on; None: all of them)
VERUS = {
    'C01': [('stamps', [r'^NegforTime', r'^Add(Assign)?(<.*>)?forTime(Value|stamp)::', r'^Sub(Assign)?(<.*>)?forTime(Value|stamp)::', r'^TimePointforTime', r'^TimeValue::(from_ticks|as_ticks|is_)', r'^SumforTimeValue', r'^total_is_plain', r'^Timestampedfor'])],
    'C02': [('values', [r'^TimeValue::(from_|is_)', r'^IntoTimeValuefor\$num', r'^AddforTimeValue', r'^(far|ticks_of|far_ticks)'])],
    'C03': [('values', [r'^TimeValue::(floor|ceil|from_ticks)', r'^Timestamp::(floor|ceil|from_origin|since_origin)', r'^IntoTimeValueforTimeValue', r'^(division|quotient|rounding_is_nearest)'])],
    'C04': [('values', [r'^TimeValue::(as_secs|subsec_|to_duration)', r'^Timestamp::to_datetime', r'^From<', r'^(round_trip|conversions|recompose|constants)'])],
}
_SETS = r'(?:TimeSet<T>|TimeInterval<T>)'
VERUS['C05'] = [('sets', [r'^TimeInterval<T>::', r'^TimeBoundsfor', r'^From<', r'^NegforTimeInterval', r'^TimeSlot::duration', r'^TimeSet<T>::', r'TimeWindow', r'^IntoIteratorfor', r'^IteratorforIntoConvexIter', r'^DefaultforTime', r'^traitTimeBounds']), ('stamps', [r'^Time(Point|Bounds)forTimestamp'])]
VERUS['C06'] = [('sets', [r'^From<TW>forTimeSet', r'^TimeSet<T>::', r'^FromIterator', r'^BitOr.*TimeSet', r'^BitOr', r'^BitAnd.*TimeSet', r'^Not', r'^NegforTimeSet', r'^TimeTruncationforTimeSet', r'^PartialEq<TW>forTimeSet', r'^Iter(Union|Intersection|Complementary)', r'^IteratorforIter'])]
VERUS['C07'] = [('sets', [r'^IterUnion', r'^IteratorforIterUnion', r'^TimeUnion', r'^BitOr'])]
VERUS['C08'] = [('sets', [r'^IterIntersection', r'^IteratorforIterIntersection', r'^TimeIntersection', r'^BitAnd', r'^TimeExclusion'])]
VERUS['C09'] = [('sets', [r'^IterComplementary', r'^IteratorforIterComplementary', r'^TimeComplementary', r'^Not'])]
VERUS['C10'] = [('sets', [r'^TimeContaining', r'^TimeOverlapping'])]
VERUS['C11'] = [('sets', [r'^PartialEq', r'^PartialOrd'])]
VERUS['C14'] = [('sets', [r'^TimeTruncation'])]
VERUS['C21'] = [('sets', [r'^IteratorforI', r'^Iter(Union|Intersection|Complementary)'])]
VERUS['C12'] = [('moves', [r'^Add', r'^Sub', r'^TimeTranslation', r'TimeValueTranslIter', r'^(sums|moved|movable|mirrored|summed|sum_)'])]
VERUS['C13'] = [('scale', [r'^Mul', r'^Div', r'check_joined_inners', r'^TimeScaling', r'^(scaled|lazily_scaled|quotient)'])]
VERUS['C15'] = [('graph', [r'^TimeGraph::(propagate|resize|lower|size|with_size)', r'^(tight|feasible|earliest|top_|relaxed|put_|agree|grown|implied|ix_|is_sized)'])]
VERUS['C16'] = [('graph', [r'^TimeGraph::(propagate|resize|lower|size)', r'^(tight|feasible|earliest|top_|relaxed|put_|agree|grown|implied|ix_|is_sized)'])]
VERUS['C17'] = [('bulk', [r'^TimeGraph::(global_propagation|merge|extend|propagate|resize|lower|size)', r'^FromIterator<K>forTimeGraph', r'^Extend<K>forTimeGraph', r'^(level|fw|grows|gap|sane|last_level|has_steps|same_step|BB_|both|raised|more|span|one_minimal|row_follows|narrower|ix_onto|sq_order|holds)', r'^TimeBoundsfor\(\(', r'^TimeConstraintfor\(\('])]
VERUS['C18'] = [('queries', [r'^TimeGraph::', r'TimeGraphConstraint', r'TimeConstraintFromIter', r'TimeConstraintIter', r'^traitTimeConstraint', r'^From<K>forTimeSpan', r'^TimeBoundsfor\(\(', r'^TimeConstraintfor\(\('])]
VERUS['C21'] += [('queries', [r'TimeConstraintFromIter', r'TimeConstraintIter', r'^TimeGraph::(constraints_|iter)'])]
VERUS['C20'] = [('seqs', [r'TimeSeq(Forward|Backward)', r'^Timestamp::(forward|backward)_', r'^(walk|walks|walk_is|walk_side|left|stepped|aligned|aligned_is|places)', r'forTimestamp', r'^TimeValue::(floor|ceil)', r'^Timestamp::(floor|ceil)'])]
VERUS['C19'] = [('sched', [r'^TimeScheduler', r'TimeConstraintFromIter', r'^TimeGraph::(constraints_from|timespan|constraint)', r'TimeGraphConstraint', r'^From<K>forTimeSpan', r'^TimeTranslation<&TimeSpan>', r'^Add<TimeSpan>forTimeInterval', r'IterIntersection', r'^TimeIntersection<TW2>', r'TimeSet<T>::(into_iter|iter|all)', r'^Time(Containing|Overlapping)<(TW|Self|TimeSet)', r'^BitAndAssign', r'^Not', r'^FromIterator<TimeInterval', r'^BitOr<TW>forTimeSet', r'^TimeBoundsforTimeSet<T>::(lower|upper|is_empty)', r'^(still_choice|kept_tame|follows_tame|one_line|one_more|none_|room_moves|after_one|inside_line|meet_line|span_ok|span_fits|step_room)'])]
VERUS['C24'] = [('floats', [r'^(Mul|Div)(Assign)?<f(32|64)>', r'forf(32|64)', r'f(32|64)', r'check_joined_inners', r'^(fmul|fspan|fprod|fdiv|inv_|tr_|absr|lossless)'])]
SEARCH = dict(quick=6, thorough=240)
LEVEL = {}
TRUSTED = {'*': ['rustc and the Rust standard library'], 'kani': ['Kani 0.68 (CBMC) and its translation of MIR'], 'verus': ['Verus 0.2026.09.13 with its Z3, and vstd', 'the extraction lib/vx.py: function text taken from /repo on each run; what it rewrites is listed in DESIGN.md']}
_STD = 'contracts assumed on std (saturating_add, saturating_mul, abs, abs_diff and Duration::{new, as_secs, subsec_nanos} are themselves proved on its code by Kani; saturating_div and the views on slices and vectors are not)'
_GEN = 'generic code is verified as generic over its time type, itself given by the contracts of its trait (proved for TimeValue and Timestamp)'
_MEM = 'a vector holds less than 2^59 intervals (an allocation is limited to isize::MAX bytes)'
_WIN = [_STD, _GEN, _MEM, 'the iterators given by callers obey the contract of the prophetic iterators of vstd: they end, and give what they give']
_GRA = [_STD, 'instants are u32, less than u32::MAX']
ASSUMPTIONS = {'*': ['compiled code behaves as the source (no compiler defect)'],
    'C01': [_STD], 'C02': [_STD], 'C03': [_STD, 'chrono is not called here'],
    'C04': [_STD, 'chrono: a Duration is a number of nanoseconds, a DateTime a number of nanoseconds since 1970 (from_timestamp_opt, timestamp_nanos_opt, nanoseconds, num_nanoseconds as documented)'],
    'C05': _WIN, 'C06': _WIN, 'C07': _WIN, 'C08': _WIN, 'C09': _WIN, 'C10': _WIN, 'C11': _WIN, 'C12': _WIN, 'C13': _WIN, 'C14': _WIN,
    'C15': _GRA + ['finite bounds of magnitude at most 2^59 - 1, so that sums of two of them stay finite (about 17 years in ticks of 2^-30 s)'],
    'C16': _GRA + ['finite bounds of magnitude at most 2^59 - 1, so that sums of two of them stay finite'],
    'C17': _GRA + ['finite bounds of magnitude at most (2^63 - 2) / (2 (n + 2)) for n instants, and 2^59 - 1'],
    'C18': _GRA, 'C19': _GRA + [_MEM, 'sums of a finite bound of a slot and of one of the graph stay in the finite range'],
    'C20': [_STD, 'chrono and the clock are not involved'], 'C21': [_STD, _MEM],
    'C24': [_STD, _MEM, 'IEEE 754 conversions, products and quotients: rounding to nearest, monotone, exact on small integers; casts to i64 truncate and saturate'],
}
_ONE = 'every function of the property is proved for all inputs from its current source; the bounded search on the compiled crate only looks for a failing input'
SCOPE = {i: _ONE for i in ['C%02d' % k for k in range(1, 25)]}
SCOPE['C02'] += '; Kani: one contract for each of the 12 integer types and each unit on the compiled code'
SCOPE['C07'] += '; next() of the lazy iterator gives an item such that the points left are exactly the other ones: by induction on the items, the iterator gives the union'
SCOPE['C08'] += '; next() of the lazy iterator gives an item such that the points left are exactly the other ones: by induction on the items, the iterator gives the intersection'
SCOPE['C09'] += '; next() of the lazy iterator gives an item such that the points left are exactly the other ones: by induction on the items, the iterator gives the complement'
SCOPE['C15'] += '; each call keeps the invariant "minimal and same assignments as the constraints added": by induction on the calls, any history'
SCOPE['C16'] += '; refused if and only if there is no assignment of dates: both directions are postconditions'
SCOPE['C17'] += '; two minimal graphs with the same assignments are the same one (lemma one_minimal), hence the order does not matter'
SCOPE['C19'] += '; the choices of dates are universally quantified functions, not samples'
SCOPE['C24'] += '; floats are reals with a rounding error per operation in Verus, bit-precise in Kani (single precision)'
NOTE = {'C15': 'deductive, all inputs, for bounds below 2^59', 'C16': 'deductive, all inputs, for bounds below 2^59', 'C17': 'deductive, all inputs, for bounds below (2^63-2)/(2(n+2)) with n instants',
    'C19': 'deductive, all inputs, as long as sums of finite bounds stay finite', 'C24': 'deductive, all inputs, IEEE 754 rounding axiomatised in Verus',
    'C04': 'deductive, all inputs, chrono by its documented contract'}
NA = {
    'C22': 'textual forms: the statement has no mathematical oracle of its own (the format is what the code prints), string formatting through core::fmt is outside the reach of both installed deductive verifiers, and no other listed guarantee rests on it',
    'C23': 'serde derives: the code is generated by a macro of another crate behind an optional feature; what could be specified is serde_derive, not this repository, and trait objects of serializers are outside the reach of the verifiers',
}
