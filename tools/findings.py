"""Write known_findings.json: tools/findings.py (edit the lists below). Commit ids are looked up by subject in /repo."""
import json, pathlib, subprocess
V = pathlib.Path(__file__).resolve().parent.parent
log = {s: h for h, s in (l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines())}
FIXED = [
    ("P07", "fix: durations of an empty index", "resampling prices/averagable data without a full target period raised TypeError from the duration of an empty index"),
    ("P24", "fix: truthiness of nested portfolio line looks at the children, not at their names", "bool(nested line) was True with all-zero children"),
    ("P09", "fix: reindex nested portfolio line", "reindex of a nested line raised AttributeError"),
    ("P01", "fix: sum of complete portfolio lines keeps revenue equal to price times volume", "sum where volumes cancel had a price that contradicts revenue and volume"),
    ("P03", "fix: sum of nested portfolio lines covers only their common delivery period", "sum of nested lines with partly overlapping spans failed or kept children on unequal spans"),
    ("P15", "fix: weighted average of series ignores zero-weight values and not missing values", "wavg of a series ignored NaN at non-zero weight (equal weights), and compared zero-weight values for weights summing to zero"),
    ("P16", "fix: mark-to-market value in periods without sourced volume", "mtm_of_sourced() was NaN wherever no volume was sourced"),
    ("P12", "fix: hedge products start at the start-of-day; daily products", "hedge with start-of-day other than midnight attributed first-of-month hours to the wrong product; freq='D' raised"),
    ("P18", "fix: resampled portfolio state keeps market price if nothing is unsourced", "asfreq of a fully sourced state lost the market price and the procurement cost (NaN)"),
    ("P07", "fix: resample to quarters and years that do not start in January", "asfreq to QS-FEB, YS-APR etc. raised ValueError although documented"),
    ("P08", "fix: missing value is not replaced by the preceding one when upsampling", "upsampling replaced missing values by the value of the preceding period"),
    ("P07", "fix: start-of-day of resampled months that start at a DST change", "downsampling to months with start-of-day 06:00 gave a period start at 05:00 or 07:00 if the first of the month is a DST-change day (e.g. New York 2020-11-01)"),
    ("P27", "fix: refuse multiples of a quarter or year as frequency", "frequencies such as '2QS' or '-1YS' were accepted (and e.g. a reversed selection of a quarterly line gave a line)"),
    ("P11", "fix: intersection of single or non-overlapping operands, and with superfluous ignore_start_of_day", "intersection of one series returned a scalar, of an empty one an empty list; ignore_start_of_day with equal start-of-day raised UnboundLocalError"),
    ("P11", "fix: longest and shortest frequency with quarters and years that do not start in January", "freq.longest('MS','QS-FEB') was 'MS', so their intersection contained part of a quarter"),
    ("P11", "fix: intersection with other start-of-day without full common period", "intersection ignoring frequency and start-of-day raised IndexError if no full period exists"),
    ("P13", "fix: split in peak and offpeak values considers the start-of-day", "tseries2poframe/po() with start-of-day other than midnight attributed the first hours of a product to the previous one"),
    ("P13", "fix: peak and offpeak values expanded to time series were swapped, and totals spread over all periods", "poframe2tseries put the peak value in offpeak periods and vice versa, and spread energies over the wrong periods"),
    ("P14", "fix: peak function with window that starts in skipped hour", "peak function failed or misclassified on the day where the window's boundary does not exist"),
    ("P20", "fix: floor and ceil to (quarter)hours in hours that are repeated at end of DST, and of timestamps with seconds", "floor/ceil of stamps in the repeated hour raised or moved by an hour"),
    ("P20", "fix: left-bound timestamps of daily index that ends after DST change", "righttoleft.index gave wrong stamps for daily indices ending after a DST change"),
    ("P22", "fix: keep name and unit when converting (quarter)hourly data to timezone-agnostic", "force_agnostic lost name and unit of hourly series"),
    ("P21", "fix: no lossy conversion between representations of the same timezone", "force_aware to the timezone that the data already has (other object) dropped or duplicated DST hours"),
    ("P21", "fix: gap before the final right-bound timestamp is not ignored", "right-bound timezone-agnostic data with its penultimate stamp missing was accepted, and its last value moved to the wrong period"),
    ("P25", "fix: pass keyword arguments to excel export", "to_excel() dropped all its keyword arguments except the first check"),
    ("P25", "fix: dataframe export without units", "Flat.dataframe(has_units=False) raised"),
    ("P25", "fix: number of timestamps when printing 1 or 2 timestamps", "print(num_of_ts=1 or 2) showed too many rows"),
    ("P25", "fix: printing of deeply nested portfolio lines", "printing lines nested 7 levels or deeper raised IndexError"),
    ("P23", "fix: change year of (quarter)hourly data with other start-of-day than midnight", "mapping (quarter)hourly data with start-of-day 06:00 to another year raised KeyError"),
    ("P23", "fix: change year of portfolio line with revenue", "mapping a line with revenue to another year scaled the revenue the wrong way and onto misaligned periods"),
    ("P24", "fix: equality of portfolio lines does not depend on the name of the index", "lines with equal data compared unequal if the name of their index differed"),
    ("P24", "fix: copy nested portfolio lines", "copy.copy and copy.deepcopy of a nested line raised RecursionError"),
    ("P26", "fix: pair of stamps in UTC or another timezone without zone attribute", "coherent pair of stamps in UTC raised AttributeError"),
    ("P27", "fix: recognise quarters of 88 days and 23 hours", "quarter from February until May (with DST change in spring) not recognised by its length"),
    ("P28", "fix: fill_gaps with gaps at the edges of the series", "fill_gaps lost values, or raised, for series that start or end with a gap"),
    ("P29", "fix: error for series with several dimensions", "avoid_frame_of_objects of a series with quantities of several dimensions raised TypeError while constructing its error"),
    ("P30", "fix: plots of years and quarters that do not start in January", "lines with e.g. quarters from February or years from April could not be plotted (ValueError)"),
    ("P30", "fix: visible range in plot of portfolio state", "prices (or volumes) in a narrow range around a large value were outside of the visible range of the plot"),
    ("P30", "fix: draw steps over their own delivery period", "prices, revenues and children of daily or shorter data were drawn half a period too early"),
    ("P30", "fix: plots of dimensionless data", "dimensionless data, e.g. the sourced fraction, could not be plotted (AttributeError)"),
    ("P30", "fix: plot of several portfolio states", "plot_pfstates raised AttributeError for any input"),
    ("P15", "fix: weighted average with very small weights, or weights that cancel out apart from rounding", "wavg of a series was NaN for weights of e.g. 1e-9, and wavg of a frame was arbitrary (and not what it is for a series) for weights such as 0.1, 0.2, -0.3"),
    ("P10", "fix: concatenation of single days around a DST change", "concat of two daily lines of one day each was refused if the clock changes on the first of these days"),
]
OPEN = [
    # dict(property=, sub=, case=, what=)
]
f = []
for p, subj, what in FIXED:
    if subj in log:
        f.append({"property": p, "status": "fixed", "commit": log[subj], "what": what, "line": f"fixed: property={p} {log[subj]} {what}"})
for o in OPEN:
    f.append({**o, "status": "open"})
(V / "known_findings.json").write_text(json.dumps({"findings": f}, indent=1) + "\n")
print(len(f))
