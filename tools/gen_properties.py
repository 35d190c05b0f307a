"""Writes /verif/properties.jsonl (the single place where the property texts are maintained)."""
import json, pathlib
C = "portfolyo/core/pfline/"; S = "portfolyo/core/pfstate/"; T = "portfolyo/tools/"; T2 = "portfolyo/tools2/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))

p("P01", "Power, energy, price and revenue always agree",
  "In every portfolio line with volumes, the energy of each delivery period equals the power times the real elapsed duration of that period (23/25-hour days, leap years and shifted start-of-day included), and in every line that also has prices and revenues the revenue equals price times energy. Whichever sufficient subset of the four quantities is supplied, the same line results, and supplying values that contradict each other raises an error.",
  ["inputs", "configurations"], "all frequencies (15min..year), timezones (incl. none), start-of-day, values of any sign incl. zero, all sufficient subsets of w/q/p/r, flat lines",
  "Tests build a few lines on a few hand-picked indices and mostly compare with values computed by the same code; DST, leap-year and start-of-day combinations with each subset of quantities are not crossed.",
  [C+"interop.py", C+"flat_helper.py", C+"classes.py", T+"duration.py", T+"right.py"],
  [("completion and consistency check of w,q,p,r", C+"interop.py:make_consistent"), ("duration of delivery periods", T+"duration.py:index")])

p("P02", "Equivalent input representations give the identical portfolio line",
  "The same physical data gives the same portfolio line regardless of how it is passed: any convertible unit, plain numbers under a dimension name, a pint series, a dataframe, a mapping, a list of series, tuple keys, or a single value meaning that value in every period; the values held are those of the input converted to MW, MWh, Eur/MWh and Eur. Series that cover different spans are reduced to exactly their common delivery periods.",
  ["inputs", "configurations"], "all unit spellings per dimension, all container forms, scalars mixed with series, partially overlapping spans, int and float data",
  "Tests enumerate a handful of unit/container pairs with fixed numbers; the product of containers, units, integer data and partial overlaps is not covered.",
  [C+"interop.py", C+"create.py", T+"unit.py", T+"unitdefinitions.txt", T+"intersect.py"],
  [("extraction of dimensions from any input", C+"interop.py:_from_data"), ("unit conversion", C+"interop.py:_set_unit"), ("unit registry", T+"unitdefinitions.txt")])

p("P03", "A nested line always equals the aggregate of its children",
  "After any sequence of creation, setting, replacing and dropping children, arithmetic, resampling, slicing, extraction and flattening, the top level of a nested portfolio line equals the period-by-period aggregate of its children: volumes, revenues and price-only prices add up, and where prices belong to volumes the price is total revenue over total volume. Children keep their names, share exactly the parent's index, and flattening or extracting a dimension keeps the aggregate.",
  ["histories", "inputs"], "all operation histories over nested lines of any kind and depth, with children over different spans",
  "Tests check single operations on fixed trees; sequences of operations and deeper trees are not explored.",
  [C+"nested_helper.py", C+"children.py", C+"classes.py", C+"nested_methods.py"],
  [("aggregation", C+"classes.py:__post_init__"), ("child functionality", C+"children.py"), ("overlap of children", C+"nested_helper.py:_children")])

p("P04", "Operations never change their operands or the user's data",
  "No operation on a portfolio line or portfolio state - creation, arithmetic, resampling, slicing, hedging, child handling, setting parts, exporting, comparing - changes the object it is called on, its other operands, or the dataframes, series and dictionaries that the user passed in.",
  ["histories", "inputs"], "all public operations in any order on any line/state, with user-owned input containers re-inspected afterwards",
  "Tests assert on return values; hardly any re-reads the operands afterwards, and none over sequences.",
  [C+"classes.py", C+"arithmatic.py", C+"children.py", S+"pfstate.py", S+"arithmatic.py", T2+"changeyear.py"],
  [("frozen dataclasses returning new instances", C+"classes.py"), ("set_child/drop_child return new instance", C+"children.py")])

p("P05", "Adding, subtracting, negating and scaling lines follow ordinary algebra",
  "Adding or subtracting portfolio lines of the same kind acts period by period on their common periods (for lines with volumes and prices: volumes and revenues add, and the price is the volume-weighted average); scaling by a number or by a dimensionless series scales volumes, revenues and price-only prices but leaves the price of a line with volume and price unchanged. Hence addition is commutative and associative, x+x equals 2x, x-y equals x+(-y), and (x*k)/k equals x; nested lines combine child by child by name and mixed flat/nested operands are flattened first.",
  ["inputs"], "all kinds, flat/nested/mixed structure, all frequencies, partially overlapping spans, any factors (scalar or per-period), None and 0 as neutral operands, plain quantities and dictionaries as operands",
  "Tests use a few fixed series and factor values; partial overlaps, nested trees with different child names, zero and negative volumes are not crossed.",
  [C+"arithmatic.py", C+"interop.py", T+"intersect.py", T+"wavg.py"],
  [("addition", C+"arithmatic.py:Add"), ("scaling", C+"arithmatic.py:Multiply"), ("operand preparation", C+"arithmatic.py:Prep")])

p("P06", "Products, ratios and unions of lines respect the units involved",
  "Volume times price gives revenue, revenue over price gives volume, revenue over volume gives price, and same-dimension division gives the dimensionless period-by-period ratio, each computed on exactly the common periods; the union of any two of volume, price and revenue gives the one complete line consistent with both. Combinations that make no physical sense (adding unlike kinds, multiplying volumes, dividing complete lines, a bare number added to a line, unequal frequency, timezone or start-of-day) are refused with an error instead of returning a result.",
  ["inputs"], "all ordered pairs of kinds, structures, spans and non-line operands (quantities, dicts, series, floats) for + - * / |",
  "The existing table tests fix one index and value set per operator; results on partial overlap and error behaviour over generated operands are not quantified.",
  [C+"arithmatic.py", C+"interop.py"],
  [("multiplication", C+"arithmatic.py:Multiply"), ("division", C+"arithmatic.py:Divide"), ("union", C+"arithmatic.py:Unite"), ("guards", C+"arithmatic.py:Prep")])

p("P07", "Downsampling conserves totals and averages with the correct weights",
  "Resampling to a longer frequency keeps exactly the target periods that are fully covered by the data; for each of them energy and revenue are the sums over the contained periods, power and stand-alone prices are the duration-weighted averages, and the price of a line with volume and price is the volume-weighted average. This holds for portfolio lines (flat and nested) and for the stand-alone resampling of summable and averagable series, across DST changes, leap years and any start-of-day; if no full period is available an error (line) or an empty result (series) follows.",
  ["inputs", "configurations"], "all source/target frequency pairs, spans starting and ending mid-period, timezones, start-of-day, values of any sign",
  "Tests use few fixed spans; the product of partial leading/trailing periods, DST transitions, start-of-day and kinds is not covered.",
  [T+"changefreq.py", C+"classes.py", T+"trim.py", T+"floor.py", T+"ceil.py", T+"startofday.py"],
  [("summable downsampling", T+"changefreq.py:_downsample_summable"), ("averagable downsampling", T+"changefreq.py:_downsample_avgable"), ("trimming to full periods", T+"trim.py:index")])

p("P08", "Upsampling spreads totals by duration and is undone by downsampling",
  "Resampling to a shorter frequency covers exactly the same span without gap or overlap; powers and prices are copied to every sub-period (in a line with volumes and prices: wherever there is volume), a missing value stays missing, energies and revenues are split in proportion to the sub-periods' real durations. Resampling complete data back to the original frequency returns the original data.",
  ["inputs", "configurations"], "all source/target frequency pairs, timezones, start-of-day, DST transitions inside the span, flat and nested lines and stand-alone series",
  "Tests use fixed spans in few timezones and compare to hard-coded values; the round trip is not checked over spans and start-of-day.",
  [T+"changefreq.py", C+"classes.py", T+"duration.py", T+"right.py"],
  [("summable upsampling", T+"changefreq.py:_upsample_summable"), ("averagable upsampling", T+"changefreq.py:_upsample_avgable")])

p("P09", "Selecting a period keeps exactly the right rows; reindexing pads with zero",
  "Slicing a line or state with a start and/or end keeps exactly the delivery periods that start on or after the start and before the end, label-based selection additionally includes the end label, and values are unchanged, child by child for nested lines; a selection that is not a gapless span of whole days is refused. Reindexing returns exactly the requested index with the original values where periods coincide and zero volume, price or revenue elsewhere.",
  ["inputs"], "all kinds, structures, frequencies, timezones, bounds on/off period boundaries, strings and timestamps, one-sided and empty selections, target indices that extend, shift or shrink the original",
  "Tests slice a few fixed lines at few points; bounds between boundaries, nested lines, states and hourly day-completeness are not swept.",
  [C+"flat_methods.py", C+"nested_methods.py", C+"classes.py", S+"pfstate.py", T+"standardize.py"],
  [("loc and slice indexers", C+"flat_methods.py:SliceIndexer"), ("reindex", C+"flat_methods.py:reindex"), ("reindex of complete line", C+"classes.py:FlatCompletePfLine.reindex")])

p("P10", "Concatenation reassembles a split line or state, in any order",
  "Splitting a portfolio line or portfolio state at any set of period boundaries and concatenating the parts in any order gives back the original object. Parts that overlap, leave a gap, or differ in kind, frequency, timezone, start-of-day, structure or child names are refused with an error.",
  ["inputs"], "all kinds, structures, frequencies, split points, permutations of 2..5 parts, and single defects injected into the set of parts",
  "Tests concatenate two or three fixed pieces; permutations, split points and injected incompatibilities are sampled at single points.",
  [T2+"concat.py"],
  [("sorting and merging", T2+"concat.py:concat_pflines"), ("state concatenation", T2+"concat.py:concat_pfstates")])

p("P11", "Intersection keeps exactly the common delivery periods of every operand",
  "Intersecting any number of series, frames, portfolio lines or states keeps in each exactly those delivery periods lying in the span common to all, leaving values unchanged and order and count of operands as given. Unequal frequency, timezone or start-of-day is refused unless explicitly ignored; when ignored, the result covers only periods that are complete in the coarsest frequency and common in wall-clock terms, each operand keeping its own frequency, timezone and start-of-day.",
  ["inputs", "configurations"], "1..4 operands of mixed type, offset spans incl. disjoint and nested ones, all ignore-flag combinations, DST-containing spans",
  "Tests cover pairs of indices for chosen flag combinations; more operands, disjoint spans combined with flags and mixed object types are not swept.",
  [T+"intersect.py", T2+"intersect.py", T+"trim.py"],
  [("strict intersection", T+"intersect.py:indices"), ("flexible intersection", T+"intersect.py:indices_flex"), ("frames/lines/states", T2+"intersect.py:indexable")])

p("P12", "A hedge is uniform per product and preserves volume or value exactly",
  "The hedge of a volume with a price curve has the original index restricted to full product periods (an empty result or an error if there is none), one constant power and one constant price per product (per delivery period, or per peak and offpeak part of it), and a price equal to the duration-weighted average price of the product. A volume hedge has, per product, the same energy as the original; a value hedge has, per product, the same value at the market prices as the original.",
  ["inputs", "configurations"], "daily/hourly/quarterhourly volumes, partially overlapping price curves, base and peak/offpeak products, product lengths day/month/quarter/year, any profile incl. sign changes",
  "Tests compare hedges to stored workbook results (absent here) or two fixed profiles.",
  [T+"hedge.py", C+"flat_methods.py", C+"nested_methods.py", T+"peakconvert.py"],
  [("hedge", T+"hedge.py:hedge"), ("product grouping", T+"peakconvert.py:group_index"), ("line-level hedge", C+"flat_methods.py:hedge_with")])

p("P13", "Peak and offpeak values partition the base value and convert back",
  "For every full delivery period, decomposing a line or series into peak and offpeak gives durations, energies and revenues that add up to the base value, and powers and prices that are the duration-weighted averages (for a complete line the volume-weighted price) over exactly the periods of that part; completing two of base/peak/offpeak to three is arbitrage-free. Expanding peak/offpeak values to a time series assigns each period the value of the part it lies in, so that decomposing that series gives the original values back.",
  ["inputs", "configurations"], "hourly/quarterhourly/daily series, peak definitions of any hours and weekdays, monthly/quarterly/yearly targets, DST months, summable and averagable data",
  "Tests convert one price data set with one peak definition; round trips and other peak definitions are not covered.",
  [T+"peakconvert.py", C+"flat_methods.py", T+"peakfn.py", T+"wavg.py"],
  [("decomposition", T+"peakconvert.py:tseries2poframe"), ("expansion", T+"peakconvert.py:poframe2tseries"), ("completion", T+"peakconvert.py:complete_bpoframe"), ("line-level", C+"flat_methods.py:po")])

p("P14", "Peak classification follows local wall-clock time and weekday",
  "A peak function marks a delivery period as peak exactly if it lies, in local wall-clock time, within the specified daily window on one of the specified weekdays (a whole-day definition classifies delivery days by the weekday on which they start), and refuses an index whose periods are too long to be entirely peak or entirely offpeak. For every index, peak and offpeak durations are non-negative, add up to the period's duration, and equal the summed durations of the contained peak (offpeak) periods.",
  ["inputs", "configurations"], "all windows on quarter-hours incl. open-ended ones, weekday sets, timezones, frequencies 15min..year, spans with DST changes",
  "Tests evaluate selected definitions at selected timestamps.",
  [T+"peakfn.py", T+"product.py", T+"changefreq.py"],
  [("classification", T+"peakfn.py:factory"), ("durations", T+"peakfn.py:peak_duration")])

p("P15", "Weighted averages follow the documented rules for NaN and zero weights",
  "The weighted average equals sum(weight*value)/sum(weight) over the entries with non-zero weight, is undefined if such an entry is missing, and for weights that sum to zero without all being zero is the common value if all values with non-zero weight are identical and undefined otherwise. Series, row-wise and column-wise dataframe averages, with or without units, and with weights given as list, mapping, series or dataframe agree with one another (apart from weights that are all zero), and scaling all weights or reordering entries together does not change the result.",
  ["inputs"], "values and weights of any sign incl. zero and missing ones, weights summing to zero, all container forms, axes, and units",
  "Tests enumerate some tables of values; agreement among the forms and the rules over generated zero/missing patterns is not swept.",
  [T+"wavg.py"],
  [("series average", T+"wavg.py:series"), ("dataframe average", T+"wavg.py:dataframe"), ("uniformity rule", T+"wavg.py:rowvalue_uniformity")])

p("P16", "Every portfolio state balances: open, sourced, cost and mark-to-market",
  "In every portfolio state, for each delivery period, offtake plus sourced plus unsourced volume is zero, the net position is the unsourced position with the sign of volume and revenue reversed, the unsourced revenue is unsourced volume times the unsourced price, and the procurement cost is the sum of sourced and unsourced (its volume being minus the offtake). Sourced and unsourced fraction add up to one, the mark-to-market of the sourced volume is its volume times market price minus its cost wherever the market price is known, and all parts share the offtake's index.",
  ["inputs", "configurations"], "states created from lines or series over differing spans, with or without sourcing, flat or nested parts, zero and sign-changing volumes, all frequencies",
  "Tests check creation and a few numbers; the identities are not asserted over generated states.",
  [S+"pfstate.py", S+"pfstate_helper.py"],
  [("derived positions", S+"pfstate.py:unsourced"), ("alignment of parts", S+"pfstate_helper.py:make_pflines")])

p("P17", "Portfolio states combine and scale as the books they represent",
  "Adding (subtracting) portfolio states adds (subtracts) offtake, sourced and unsourced positions period by period on the common periods, so that the unsourced price of the sum is the price that gives the summed unsourced value; scaling a state by a factor scales all volumes and revenues and keeps prices. Replacing the offtake, the market price or the sourced part changes exactly that part and what follows from it, and adding sourced volume adds it to the sourced position only.",
  ["inputs", "histories"], "pairs/triples of states with different spans and children, factors of any sign, sequences of set/add operations",
  "Tests check type errors and a couple of numeric cases.",
  [S+"arithmatic.py", S+"pfstate.py", C+"arithmatic.py"],
  [("state arithmetic", S+"arithmatic.py"), ("set_*/add_sourced", S+"pfstate.py")])

p("P18", "Resampling a portfolio state conserves volumes, revenues and cost",
  "Resampling a portfolio state to a longer frequency keeps, for every full target period, the total offtake, sourced and unsourced volume, the sourced and unsourced revenue and hence the procurement cost; the resampled unsourced price is the unsourced-volume-weighted average, or undetermined where the unsourced volume cancels to zero over the target period. Resampling is consistent with resampling each part as a portfolio line.",
  ["inputs", "configurations"], "source/target frequency pairs, spans with partial periods, DST, start-of-day, sign-changing open positions, flat/nested sourcing",
  "Tests contain no numeric check of state resampling over generated data.",
  [S+"pfstate.py", C+"classes.py", T+"changefreq.py"],
  [("state resampling", S+"pfstate.py:asfreq")])

p("P19", "Sourcing the open position closes it per product without changing cost",
  "Simulating that the open position, over full product periods, is hedged and sourced adds exactly that hedge to the sourced part, leaves offtake and market prices unchanged, and results in a state whose open volume (volume hedge) or open market value (value hedge) is zero in every product period and whose total procurement cost per product is that of the original state. The hedge itself equals hedging the unsourced volume at the unsourced prices.",
  ["inputs", "configurations"], "states at hourly/quarterhourly/daily frequency with partial sourcing, base and peak/offpeak products, product lengths, both hedge types",
  "No existing test sources a generated open position and re-balances the books.",
  [S+"pfstate.py", T+"hedge.py"],
  [("source_unsourced", S+"pfstate.py:source_unsourced"), ("hedge", T+"hedge.py")])

p("P20", "Delivery-period boundaries: floor, ceil, trim, right and duration agree",
  "For every timestamp, frequency, timezone and start-of-day, flooring gives the latest period start not after it and ceiling the earliest not before it (both the timestamp itself exactly on boundaries), a future/past step moves by exactly one period per unit, and the boundary test is true exactly on period starts. For every index the right-bound of a period is the start of the next, turning right-bound into left-bound stamps inverts this, durations are the elapsed time between the two, and trimming a non-empty index keeps exactly the periods that lie in complete periods of the target frequency.",
  ["inputs", "configurations"], "timestamps over several decades at quarter-hour granularity incl. DST-change days, all frequencies, timezones and start-of-day",
  "Tests enumerate dates by hand; combinations near DST changes with non-midnight start-of-day are missing.",
  [T+"floor.py", T+"ceil.py", T+"round.py", T+"isboundary.py", T+"trim.py", T+"right.py", T+"righttoleft.py", T+"duration.py", T+"startofday.py"],
  [("rounding", T+"round.py:stamp_general"), ("boundary test", T+"isboundary.py"), ("trim", T+"trim.py:index"), ("right-bound", T+"right.py:index")])

p("P21", "Standardizing turns any faithful description of data into the same result",
  "A frame of gapless data is standardized to the same left-bound, frequency-carrying, consistently named result whether its index was left- or right-bound, with or without a set frequency, timezone-aware, in another representation of the same timezone, or local wall-clock time with repeated and skipped hours at DST changes; each value stays with its delivery period. Data with gaps, unsorted or duplicate stamps, partial days or starts off the period boundary is refused with an error, as is building a portfolio line from it.",
  ["inputs", "configurations"], "all frequencies, timezones, spans with and without DST change, left/right bound, series and frames, units, injected defects",
  "Tests use stored workbook cases for few dates; injected defects are single examples.",
  [T+"standardize.py", T+"righttoleft.py", T+"freq.py", T+"tzone.py", C+"interop.py"],
  [("standardization", T+"standardize.py:frame"), ("assertions", T+"standardize.py:assert_index_standardized"), ("right to left", T+"righttoleft.py:index")])

p("P22", "Timezone conversion moves values by the stated clock rule, losing nothing else",
  "Converting between timezone-aware and timezone-agnostic data keeps, for every wall-clock period that exists on both sides, the value of that period, fills an hour that exists only in the target with the value of the matching hour (repeated hour: same value twice; skipped hour: previous hour's value) and drops only hours that do not exist in the target; daily and longer values are carried over one to one. Conversion along the universal time axis keeps every value at its instant, the frequency is kept, and series, frames and units are preserved.",
  ["inputs", "configurations"], "all frequencies, timezone pairs, floating or fixed conversion, spans on and around both DST changes, series/frames with or without units",
  "Tests use one stored workbook with one timezone and year.",
  [T+"tzone.py", T+"freq.py"],
  [("aware to agnostic", T+"tzone.py:_aware_to_agnostic"), ("agnostic to aware", T+"tzone.py:_agnostic_to_aware")])

p("P23", "Mapping data onto another year keeps month, day type and values",
  "Mapping full months of data onto another year gives an index with the same months starting in that year, in which every value is a value of the source from the same calendar month, a DST-change day is taken from a DST-change day, a plain weekday from the same weekday, a holiday from the same-named holiday, another holiday or a Sunday, and intra-day position and duration are kept; month-year pairs present in both are mapped onto themselves. For portfolio lines power and price are carried over and energy and revenue follow from the target durations.",
  ["inputs", "configurations"], "source spans of 1..24 months, target years, holiday countries or none, quarter-hourly to yearly frequency, timezones with and without DST, all kinds and structures",
  "Tests use stored mappings for chosen years and one country.",
  [T+"changeyear.py", T2+"changeyear.py"],
  [("index mapping", T+"changeyear.py:map_index_to_index"), ("line mapping", T2+"changeyear.py:map_to_year")])

p("P24", "Equality and truthiness of lines and states reflect their data",
  "Two portfolio lines (states) compare equal exactly if they have the same kind, structure, child names, delivery periods and values within numerical tolerance; equality is reflexive and symmetric, survives rebuilding the object from its own data, and is broken by a material change of any one value, period, child or kind, while comparing with other objects is just false. A line is truthy exactly if it (some child of it) contains any non-zero data.",
  ["inputs"], "all kinds and structures, single-point perturbations at any position, all-zero data at any place in the tree",
  "Tests compare chosen objects; perturbation at every position and truthiness of nested lines are not swept.",
  [C+"flat_methods.py", C+"nested_methods.py", C+"classes.py", S+"pfstate.py", T+"testing.py"],
  [("equality", C+"flat_methods.py:__eq__"), ("truthiness", C+"nested_methods.py:__bool__")])

p("P25", "Exports and printed tables contain exactly the object's data",
  "The dataframe export of a line or state contains, for the requested columns and child levels, exactly the values of the object (with or without units), under headers that name each child or part, and the Excel export read back gives the same numbers. Printing never fails, whatever the object's size, depth or values, and leaves the object unchanged.",
  ["inputs", "configurations"], "all kinds, nesting depths, column selections, child levels, unit flag, timezones, NaN values, short and long indices",
  "Tests export one or two objects and only check that no error occurs.",
  [C+"dataframeexport.py", C+"text.py", "portfolyo/core/shared/text.py", "portfolyo/core/shared/excelclipboard.py", S+"pfstate.py", S+"text.py"],
  [("dataframe export", C+"dataframeexport.py"), ("excel export", "portfolyo/core/shared/excelclipboard.py"), ("text", C+"text.py")])

p("P26", "Delivery periods of traded products and derived stamps are well-formed",
  "For every trading day, product type and front count, the delivery period starts after the trading day at a valid period start at the start-of-day, has exactly the product's length, consecutive front counts adjoin without gap or overlap, and front count one is the first full period to come (seasons starting in April or October). Completing or ordering a pair of start/end stamps yields an ordered pair that keeps the given stamps and fills a missing one with the corresponding year boundary.",
  ["inputs", "configurations"], "trading timestamps incl. DST-change and period-boundary days, all product types, front counts, start-of-day, timezones; all presence patterns of start/end",
  "Tests enumerate a few trade dates and front counts.",
  [T+"product.py", T+"leftandright.py", T+"stamp.py", T+"floor.py"],
  [("delivery period", T+"product.py:delivery_period"), ("stamp pair", T+"leftandright.py:stamps")])

p("P27", "Frequencies are ordered, validated and recognised consistently",
  "Comparing two frequencies says up-, down- or no resampling consistently with the actual lengths of their periods, is antisymmetric, refuses pairs whose periods do not nest, and agrees with the longest/shortest choice; only the documented frequencies are accepted. The frequency recognised from a sufficiently long index, or from the length of one of its periods, is the frequency it was made with (quarters and years: one whose periods start in the same months).",
  ["inputs", "configurations"], "all pairs and triples of quarter/year-anchored and fixed frequencies as text or offset, and indices in any timezone incl. DST changes",
  "Tests list pairs by hand.",
  [T+"freq.py"],
  [("comparison", T+"freq.py:up_or_down"), ("validation", T+"freq.py:assert_freq_valid"), ("recognition", T+"freq.py:guess_to_index")])

p("P28", "Gaps are filled by linear interpolation and nothing else changes",
  "Filling gaps replaces exactly those missing values that lie in a run of at most the allowed number of rows with a value on either side, by the linear interpolation (along the index, in elapsed time for timestamps) between these two values. All other values, longer gaps, gaps at the start and end, the index, the names and the argument itself stay as they are; frames are treated column by column.",
  ["inputs", "configurations"], "gaps of any number, length and position, regular and irregular numeric, timezone-aware and -agnostic indices, any maximum gap",
  "Tests fix one 7-value layout of gaps.",
  [T+"frame.py"],
  [("filling", T+"frame.py:fill_gaps")])
p("P29", "Units convert by their physical factors, and dimensions are told apart",
  "Quantities, series and frames in any spelling of a power, energy, price, revenue or duration unit convert to any other unit of that dimension by the physical factor; normalising to the default unit and splitting into magnitude and unit keep the physical value and give the same unit for all values of a dimension, however they are stored (floats, integers, unit-aware series, objects in equal or mixed units). Products and ratios of dimensions have the right dimension and value, equal dimensions cancel to a plain number, and incompatible dimensions and unknown units are refused.",
  ["inputs", "configurations"], "all pairs of about 60 unit spellings, magnitudes of any sign, series in 7 storage forms, frames",
  "Tests check a few identities.",
  [T+"unit.py", T+"unitdefinitions.txt"],
  [("default unit", T+"unit.py:defaultunit"), ("objects", T+"unit.py:avoid_frame_of_objects"), ("name of unit", T+"unit.py:to_name")])

p("P30", "Plots draw exactly the data of the object, period by period",
  "Every plot of a portfolio line, of its children and of one or several states draws for each delivery period one mark with the value of that period in the unit of the axis: bars and horizontal lines at the category of that period, areas and steps over exactly its time span. Children are drawn under their own name, data labels show the value they stand at, category labels name their period, and everything drawn lies within the visible range. Series of another dimension or frequency, or of the wrong type of time axis, are refused.",
  ["inputs", "configurations"], "lines of each kind and structure, states, any frequency (incl. anchored quarters and years), timezone, start-of-day, number of periods and value range; pairs of series in distinct units on the same axes",
  "Tests only check that plotting does not raise, for monthly and daily data.",
  [C+"plot.py", S+"plot.py", T+"visualize/plot.py", T+"visualize/categories.py", "portfolyo/tools2/plot.py"],
  [("line", C+"plot.py:PfLinePlot.plot_to_ax"), ("state", S+"plot.py:PfStatePlot.plot"), ("several states", "portfolyo/tools2/plot.py:plot_pfstates"), ("marks", T+"visualize/plot.py:plot_timeseries_as_step"), ("categories", T+"visualize/categories.py:create_categories")])

with open(pathlib.Path(__file__).parent.parent / "properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
