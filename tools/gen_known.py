"""Writes known_findings.json: defects recorded (not repaired) and those repaired by the fix commits of /repo."""
import json
import os

KNOWN = [
    ('C11', 'C11-source-latitudes', 'interpolation table identifiers ignore the latitudes of the source grid: the table of a 5x5 grid from latitude 50 is used for one from latitude 49 with the same longitudes',
     'two runs on grids which differ only in the first latitude (50 and 49), same target and mode, the first creating the table'),
    ('C11', 'C11-target-size', 'interpolation table identifiers ignore the size of the target: the table of a 2x2 target is used for a 3x2 one with the same georeference and extreme coordinates',
     'two runs with coordinate maps of latitudes 47.7 46.7 and 47.7 47.2 46.7, longitudes 6.3 7.3'),
    ('C11', 'C11-target-cells', 'interpolation table identifiers ignore the inner cells of the target: the table of latitudes 48.7 47.9 46.7 is used for 48.7 47.1 46.7 with the same georeference',
     'two runs with coordinate maps of latitudes 48.7 47.9 46.7 and 48.7 47.1 46.7'),
    ('C11', 'C11-cdd-settings', 'interpolation table identifiers ignore the cdd map, mode and options: the table made with the cdd map of 100 is used with the one of 500',
     'two cdd runs (mode Hofstra) with maps of correlation distance 100 and 500'),
    ('C11', 'C11-rotated-target', 'interpolation table identifiers ignore @rotated_target: the table made with it is used without it',
     'two nearest runs on a rotated grid, the first with @rotated_target'),
    ('C19', 'C19-latitudes', 'grids which differ only in latitudes have the same identifier: the geopotential of the second is refused as existing, and the one of the first would be used',
     'geopotentials of two grids which differ only in the first latitude (the second at -10) added one after the other'),
    ('C20', 'C20-ftp-template', 'the ftp.json made for a new user has empty entries which hide the global settings, so that -W has no host',
     'a global ftp.json with host, user and pwd, and a user without ftp.json'),
]
FIXED = '''
C04 221f0f6 accumulation with missing fields turned missing cells into data and interpolated between the wrong neighbours (also C01)
C17 efa73ef interpolation of fewer than 250 cells ended with a division by zero
C02 57de4ef average from step 0 computed a window beyond the requested end
C04 34893d8 average lost the missing cells of the fields used
C04 25e2ccc instantaneous extraction lost missing cells
C04 79abfdd negative cut-off lost missing cells
C04 b42e152 scipy interpolation used the missing code as data
C14 554ef53 netCDF output failed with a clone map having no missing cells
C04 99e63f1 missing cells were written as data in both formats for some missing values of the target maps
C23 72e82cf reference time of data at hours other than 10 to 23
C11 9aa2057 grib_nearest and grib_invdist did not use gzipped tables
C11 c070454 a registered table whose file is gone ended in an unhandled exception without global data folder
C10 6fbee1b grib_invdist on a grid point depended on the other neighbours
C12 85694c3 an interpolation table replaced on disk was served from memory
C12 30ae569 correction of a run used formulas and maps of a previous run
C15 c043400 correction of missing values, geopotentials and altitudes gave data
C16 244d9df start, end and data time of 0 were ignored
C06 639d3c2 a level given as a number in the command file matched nothing
C16 7cb55a0 perturbationNumber of the command file was ignored
C16 13f50bb -f 1 and -x 1 did not win over the command file
C17 03ed1a7 a missing second input file was not reported before running
C19 3c62e62 configuration commands -g, -W and -K failed
C17 2a70517 a failed netCDF run ended with another error
C20 813c8ee values with an equal sign in .conf files were cut
C16 b6dbaa5 an undefined path variable was not reported by name
C20 21fd90f an empty user configuration was written as invalid content
C20 85034a8 a configuration file that is not a JSON object ended in an unhandled exception
C19 c3fbcca geopotential registry out of date after adding and removing
C19 f2fbc5f adding a geopotential file without geopotential messages ended in an unhandled exception
C22 7b7ed8f results depended on the order of messages in the file
C06 f84df1b input step and last step were those of messages not matching level, date and time
C15 3c93bbd geopotential not found in input files with perturbation number
C03 734583f aggregation did not read the messages around first and last step
C21 33ebdd5 series with two resolutions lost, doubled or mixed maps
C18 515da4b commands built from strings lost flags and values
C18 9f1c0e4 API contexts ignored halfweights and required start and end
C18 da30cc5 API executions failed creating tables of grib modes
C01 f49a9ce forceZeroArray given as a boolean failed
C05 1129eaa conversions not defining cutOffNegative failed
C08 d7075cc interpolation in splits gave other results
C17 b54dca5 CDD maps and modes which cannot be used ended in unhandled exceptions
C09 3000095 triangulation of southern grids and at borders of global maps
C07 cea039e position of rotated targets
C09 365ea85 bilinear and triangulation with longitudes differing by 360 degrees
C07 356c15b target cells without coordinates had values
C09 5f96f68 bilinear depended on the size of the target and extrapolated
C09 4ccdf96 bilinear_delaunay failed for some targets
C02 31868eb average with half weights of averaged parameters used the wrong field at the beginning
C14 c6bbd0b netCDF maps with a single row or column failed
C14 74f10e9 netCDF output with a clone map whose missing value is NaN
C05 ec07efd valid values equal to the missing code were not converted and corrected
C08 d98b34c CDD mode NewEtAl failed
C08 b879e1a angles and CDD look-up with longitudes differing by 360 degrees
C08 0089bae CDD option OnlyTOP10 discarded the wrong stations
C10 0ae8d06 parallel creation of tables of grib modes differed from serial
C09 6802a2e bilinear cells at longitudes beyond 180 were missing
C09 a61f8a3 bilinear on areas across the zero meridian extrapolated
C09 bd56bdd bilinear_delaunay with quadrilaterals which are not convex
C09 44e9550 bilinear cells on the first source row and on sides of source cells
C09 cef1760 triangulation cells on the east border missing
C09 1c993e8 bilinear on quadrilaterals not convex or degenerate
C14 d77edec netCDF value formats i8, u1, u2, u4 and u8 failed
C14 e0cecbc missing values of netCDF maps in 64 bits integers
C14 9814af2 netCDF values out of the valid range were written
C11 51659ad new tables took the file name registered for another table of a different folder
C11 5ad37ed the tables folder of -N was not the one checked
C12 24537d5 changes of the global configuration were ignored by later runs of the process
C15 beb3bfa values were corrected with the geopotential of another grid
C15 3bcd6cc values were corrected where the DEM is NaN
C16 2f16a18 the output folder was created for rejected requests
C16 fda0934 correction was silently not done with some mandatory attributes missing
C16 94f898b first map number 0 was ignored and strings were concatenated
C16 d14143a path variables were not replaced in the cdd map, tables and geopotentials folders
C17 34c1bef documented failures ended in unhandled exceptions
C13 7eadb3e maps overwrote each other when prefix and number are too long
C17 8185917 status 0 when a PCRaster map could not be written
C21 d8a85d1 failure when no output step is left for the second resolution
C21 55760d3 steps lost when the first one is the change of resolution
C21 7d68d33 no maps or other steps when one of two files has none of the requested steps
C21 2036bb0 first instantaneous map taken from the next step when the first of two files has one message
C18 ad0000a netCDF clone maps were not readable by the in-memory interface
C18 0b7ca9d perturbationNumber of the parameter was ignored by the in-memory interface
C18 e3cf0d4 values starting with a dash were taken as options in commands
C18 01bc71a options passed with their long names were not replaced in commands
C19 21e3ad0 geopotentials added by others were lost by the next change
C19 96355e0 geopotentials already in the data folder could not be added
C20 f527c11 interpolation tables added by others were lost from the configuration
C20 b8849ac lines of .conf files without = ended in an unhandled exception
C23 f7fef7c fractional times were rounded by seconds
C24 e1e474a messages with fewer values than points or of another grid were interpolated as the others
C24 dcecbee maps could be written out of the output folder
C24 36a012c checksums of compressed tables were not verified
C24 b156557 runs never ended with infinite or huge longitudes
C25 077ee44 an interrupted download left a truncated file, skipped as existing by the next one
C25 016f3c9 downloads of files listed with their path went out of the data folder
C26 b266d42 an interrupted run left truncated json files in the user configuration
C26 6ae84e6 an interrupted run left truncated interpolation tables
C26 6bd8a85 netCDF files which could not be completed ended in an unhandled exception
C27 d802693 runs at the same time took tables of each other, and lost entries of registries
C24 a7da23c latitude maps larger than the longitude map were accepted
'''


def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
    fixed = []
    for line in FIXED.strip().splitlines():
        p, c, what = line.split(' ', 2)
        fixed.append(f'fixed: property={p} {c} {what}')
    with open(out, 'w') as f:
        json.dump({'known': [dict(property=p, id=i, what=w, fails_with=x) for p, i, w, x in KNOWN], 'fixed': fixed}, f, indent=1)
        f.write('\n')
    return fixed


if __name__ == '__main__':
    print(len(main()))
