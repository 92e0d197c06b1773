"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'C01': ('property-based testing against a reference model of the accumulation', 'aggregator and whole runs on generated series of fields'),
    'C02': ('property-based testing against a reference model of the average', 'aggregator and whole runs on generated series; with uneven spacing inside a half-weight window only convexity is decided'),
    'C03': ('property-based testing against a reference model of the extraction', 'aggregator and whole runs, and rejection of accumulated parameters'),
    'C04': ('metamorphic property-based testing of whole runs with bitmaps', 'the cells an output depends on are found by changing them in the code under test; zero-weight contributions are left free except in nearest modes'),
    'C05': ('property-based testing of generated conversion functions against numpy', 'converter and whole runs'),
    'C06': ('property-based testing of message selection against a reference filter', 'files written and read back with ecCodes'),
    'C07': ('property-based differential testing against a brute-force great-circle search', 'ties between equidistant stations are left free'),
    'C08': ('property-based testing against an independent implementation of the published weights; metamorphic variants', 'ties in the choice of stations are excluded'),
    'C09': ('property-based testing of convexity, position reproduction and textbook formulas', 'cells next to a row of points on the pole are only required to be convex or missing'),
    'C10': ('property-based differential testing against ecCodes neighbour search', 'trusts ecCodes for the neighbours'),
    'C11': ('stateful property-based testing of table directories over histories of runs', 'grids whose table identifiers collide are recorded as known findings and excluded'),
    'C12': ('stateful differential testing: sequences of runs against fresh processes', 'forked processes stand for new ones'),
    'C13': ('property-based round-trip testing of PCRaster output read with GDAL', 'trusts GDAL for reading'),
    'C14': ('property-based round-trip testing of netCDF output read with netCDF4', 'trusts netCDF4 for reading'),
    'C15': ('property-based testing of generated correction formulas against numpy', 'whole runs'),
    'C16': ('property-based testing over the product of option sources against a table of documented settings', 'command line, command file and .conf contents'),
    'C17': ('fault-injecting property-based testing of whole runs', 'documented failures, alone and combined'),
    'C18': ('property-based differential testing API against command line; model-based testing of the command builder', 'in process'),
    'C19': ('stateful model-based testing of the registry', 'class, API and command line'),
    'C20': ('model-based property testing of configuration merging and parsing', 'generated JSON and .conf contents'),
    'C21': ('property-based testing of series with a change of resolution against single-resolution runs', 'resolutions differ in the number of points along a meridian, as in the code'),
    'C22': ('property-based testing of whole runs against an independent composition of stages', 'generated worlds; interpolation judged by independent formulas'),
    'C23': ('property-based testing of the decoded time axis', 'trusts netCDF4 for reading'),
    'C24': ('mutation fuzzing of all inputs with containment and truth of results', 'processes are killed on timeouts; values compared for undamaged messages'),
    'C25': ('model-based property testing of downloads with a fault-injecting FTP server', 'server of the check on the loopback network'),
    'C26': ('fault-injecting property-based testing of histories of commands (kills and full disk at generated points)', 'faults at Python file operations and at any file size'),
    'C27': ('property-based testing of generated schedules of two processes', 'schedules of Python file operations'),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'pv', 'checks', i.lower() + '.py')):
            t, n = NOTES[i]
            checks.append({'property': i, 'quick_cmd': f'/opt/venv/bin/python -m pv.run {i}', 'thorough_cmd': f'/opt/venv/bin/python -m pv.run {i} --tier thorough',
                           'technique': t, 'level': 'exploration',
                           'level_note': f'Generated-input search over the input space described in DESIGN.md, no guarantee beyond the cases explored: {n}.'})
        else:
            na.append({'property': i, 'reason': 'the check is not built yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')


main()
