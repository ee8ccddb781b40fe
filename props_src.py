"""source of properties.jsonl and MANIFEST.json: python3 props_src.py rewrites both"""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))


def P(id, title, statement, over, text, why, files, mech, technique, note, state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state]),
                _technique=technique, _note=note)


PROPS = [
P('C01', 'Format detection tries matching formats in priority order and reuses the hit',
  'Opening a file without naming a format tries exactly the known formats whose declared extensions (including trailing-wildcard ones) match the file\'s extension whatever the case of the file name, in ascending priority and registration order, passing on the caller\'s options; a format answering "wrong format" is skipped, the first one that succeeds provides the returned object (read once), any other error is passed on immediately, and if none accepts a format-not-detected error is raised. A format named explicitly is the only one used, with the caller\'s options.',
  ['inputs', 'configurations', 'histories'], 'every file name, every set of registered formats and every combination of answers of their readers',
  'the tests open example files that the right reader accepts at once; they never look at which readers were tried, in what order, or at errors of a reader in the middle of the list',
  ['weio/__init__.py', 'weio/file_formats.py'], [('detectFormat loop', 'weio/__init__.py:detectFormat'), ('read', 'weio/__init__.py:read'), ('isRightFormat', 'weio/file_formats.py'), ('priority sort', 'weio/__init__.py:fileFormats')],
  'stateless exhaustive exploration of all reader-answer vectors with recording stand-ins, in lock step with a reference dispatcher',
  'all answer vectors of all library formats for every library extension; 2 user formats; histories of 3 reads'),
P('C02', 'User-defined formats are all registered, ordered and isolated from broken ones',
  'Every Python module of the user folder that defines a reader class contributes exactly one format, placed among the library formats by its own priority (a documented default when it has none) and usable like them. A module that cannot be imported, defines no reader class or lacks the required static methods raises an error that names it, or, when errors are tolerated, is reported exactly once while all other formats stay available; the answer does not depend on earlier calls.',
  ['configurations', 'histories', 'inputs'], 'every content of the user folder and every order of calls',
  'no test has a user folder at all',
  ['weio/__init__.py', 'weio/user.py'], [('fileFormats', 'weio/__init__.py'), ('userFileClasses', 'weio/__init__.py')],
  'exhaustive exploration of all folders of up to 3 modules out of 16 kinds, and all histories of 3 calls, against a reference list',
  'modules of 16 kinds, up to 3 per folder'),
P('C03', 'Missing, empty and unnamed files give the documented errors for every format',
  'For every supported format, reading a path that does not exist raises a file-not-found (OS) error, reading a zero-byte file raises the empty-file error, and reading or writing without ever having given a file name raises an error; none of them creates, removes or changes a file, and an object that failed this way can still be used to read a valid file with the same result as a new object.',
  ['inputs', 'histories', 'fault_sequences'], 'every format, every failing and succeeding sequence of calls on one object',
  'tests only open valid files',
  ['weio/file.py', 'weio/*_file.py'], [('File.read / File.write guards', 'weio/file.py:File.read'), ('own guards of the readers that override read', 'weio/turbsim_file.py, weio/mannbox_file.py, weio/vtk_file.py, weio/tecplot_file.py, ...')],
  'exhaustive exploration of all formats x all sequences of 3 calls over {missing, empty, unnamed, folder, valid}',
  'all 33 formats, histories of 3 calls'),
P('C04', 'Looking at a file object never changes it',
  'For every format, converting an object to tables, printing it, listing its keys or asking it for derived quantities changes neither the content of the object nor any file: any later table, query, written file or re-read is the same as if the query had not been made, however many times and in whatever order queries are made.',
  ['histories', 'inputs'], 'every sequence of queries on every kind of object',
  'tests convert each object at most once and then discard it',
  ['weio/*_file.py'], [('toDataFrame methods', 'weio/*_file.py:_toDataFrame')],
  'exhaustive exploration of query sequences on every example file (and generated files), comparing canonical states before/after with a fresh object',
  'all example files of the repository, all sequences of 3 queries'),
P('C05', 'What a read returns depends only on the file, not on earlier reads',
  'Reading a file gives the same content and the same tables whatever was read, queried or written before in the process: other objects of the same or another format, earlier failed reads, or an earlier read of another file by the same object. Objects are independent: reading, changing or writing one never alters another one.',
  ['histories'], 'every history of reads and changes over every pair of files',
  'each test reads one file into a new object; sharing through classes, modules, defaults and stale attributes never shows',
  ['weio/*_file.py'], [('per-object state set in read', 'weio/*_file.py:_read'), ('no mutable defaults / class attributes', 'weio/*_file.py')],
  'exhaustive exploration of ordered pairs/triples of files and operations, differential against a fresh object in the initial state',
  'all ordered pairs of example files of the same format, several histories each, plus cross-format pairs'),
P('C06', 'Writing is faithful, repeatable and confined to the requested file',
  'For every format that can be written, writing creates or replaces the requested file only (and its documented companion), leaves the content of the object unchanged, never touches the file it was read from unless that is the target, produces the same bytes when repeated (time stamps aside), and reading the result gives the content back within the precision of the format. Writing again what was read back changes nothing more.',
  ['histories', 'inputs'], 'every writable object and every sequence of write / read / query operations',
  'tests write once and compare a few values, or only check that no exception is raised',
  ['weio/*_file.py', 'weio/file.py'], [('write', 'weio/file.py:File.write'), ('_write methods', 'weio/*_file.py:_write')],
  'exhaustive exploration of write/read/query histories on every writable example file with a folder snapshot oracle',
  'all writable example files, histories of 3 operations'),
P('C07', 'Delimited text tables keep their columns, rows and values',
  'A delimited text file (comma, semicolon, tab or blanks; with or without column names, comment lines, units line, byte-order mark or UTF-16) is read into a table with exactly its columns, rows and values, whether the layout is detected or described by options. A table written by the library and read back has the same column names and values.',
  ['inputs', 'configurations'], 'every layout, header, separator and content',
  'twelve example files sample a handful of layouts',
  ['weio/csv_file.py'], [('header/separator/column-name detection', 'weio/csv_file.py:_read'), ('_write', 'weio/csv_file.py')],
  'exhaustive exploration of generated layouts against a reference reader',
  'product of separators, headers, comment characters, names, units lines, encodings, line ends, 1..4 columns, 1..4 rows'),
P('C08', 'FAST input files behave as a dictionary of the file and survive editing',
  'Reading a FAST input file gives, for every "value label description" line, an entry with that label and the typed value (number, boolean, text, list), found whatever the case of the label. Setting entries and writing changes exactly those values: re-reading gives the new value for the changed labels and the old ones for all others, keeps labels, order, descriptions and headings, for any sequence of edits and writes.',
  ['inputs', 'histories'], 'every input file, every label, every value and every sequence of edits',
  'tests check one label in a few files and that write/read does not crash',
  ['weio/fast_input_file.py'], [('parseFASTInputLine', 'weio/fast_input_file.py'), ('__setitem__/getID', 'weio/fast_input_file.py'), ('toString', 'weio/fast_input_file.py')],
  'exhaustive exploration: every label of every example file x value alphabet through set/write/read; generated line shapes; histories of edits against a reference dictionary',
  'all example input files, all labels, 9 values; generated files'),
P('C09', 'Tables inside FAST input files keep their shape, values and counts',
  'Tables of FAST input files (blade and tower properties, polars, airfoil coordinates, matrices, members, joints, output lists, file lists) are read with exactly the rows and columns of the file and come back from write and re-read with the same values; the columns that the library adds to their tables (mode shapes, normal-force coefficients, mid-chord axis) are those that follow from the entries of the file. After a table is replaced by one with another number of rows (together with its row count, which blade and polar files update themselves when written), the written file is read back as that table, everything else unchanged.',
  ['inputs', 'histories'], 'every table kind, size, content and edit',
  'tests look at one value of a few tables and never change a table',
  ['weio/fast_input_file.py'], [('table detection and parsing', 'weio/fast_input_file.py:FASTInputFileBase._read'), ('detectUnits/splitAfterChar helpers', 'weio/fast_input_file.py'), ('specialised classes', 'weio/fast_input_file.py:ADBladeFile, EDBladeFile, ADPolarFile, ...')],
  'exhaustive exploration of generated tables (kinds x sizes x contents x edits) against a reference table, plus every table of every example file',
  'all table kinds, 1..4 rows, value alphabets, edits to 1..5 rows'),
P('C10', 'A FAST model deck loads exactly the files it refers to and writes them back',
  'Reading a deck from its main file loads every module file that is active and requested, resolving each path relative to the file that names it, and nothing else; disabled, unused or unrequested modules are absent and missing files are tolerated. Reading again leaves nothing of the previous deck. Writing a fully loaded deck elsewhere creates exactly its main and module files (the files AeroDyn refers to are not part of what is written), reads back with the same modules and values, and does not touch the original files.',
  ['configurations', 'inputs', 'histories'], 'every combination of module switches, file placements, missing files and requested modules',
  'tests read one deck with one set of switches',
  ['weio/fast_input_deck.py'], [('FASTInputDeck.read', 'weio/fast_input_deck.py'), ('readAD/readFASTGeneric', 'weio/fast_input_deck.py')],
  'exhaustive exploration of generated decks (switches x placements x missing files x requested modules) against a reference resolver',
  'all switch combinations, 3 placements'),
P('C11', 'OpenFAST output files decode exactly and round-trip within their resolution',
  'A text or binary OpenFAST output file (all four binary layouts, any number of channels and steps, any extension) is read as the table it encodes: same channels, units, description, times and values. A table or file written in binary and read back keeps the channels and units, the times, and every value to within the 16-bit resolution of its channel; a file written as text keeps 4 significant digits.',
  ['inputs', 'histories'], 'every layout, number of channels and steps, scaling, name, unit and value',
  'tests read three files and compare one value each',
  ['weio/fast_output_file.py'], [('load_binary_output', 'weio/fast_output_file.py'), ('load_ascii_output', 'weio/fast_output_file.py'), ('writeBinary', 'weio/fast_output_file.py')],
  'exhaustive exploration of generated files from an independent encoder, and of write/read histories',
  '4 layouts, 1..3 channels, 1..3 steps, buffer boundaries'),
P('C12', 'Linearization files give the right matrices, names and operating points',
  'A linearization file is read with every matrix (A, B, C, D, coupling Jacobians) having the rows and columns of the file, every operating-point vector and its descriptions in the order of the file, and tables whose labels follow the descriptions; the result does not depend on which optional sections are present, their order or their size.',
  ['inputs', 'configurations'], 'every set of sections, dimension and description',
  'two example files are read and a few values compared',
  ['weio/fast_linearization_file.py'], [('readOP/readMat', 'weio/fast_linearization_file.py'), ('shortName / label simplification', 'weio/fast_linearization_file.py')],
  'exhaustive exploration of generated linearization files (sections x sizes x content)',
  'all section subsets, 1..3 states/inputs/outputs'),
P('C13', 'Summary files and their YAML subset are read as the structure they write',
  'A summary file made of scalars, strings, lists and tables in the supported YAML subset is read as exactly that structure: same keys, numbers, texts, list lengths and matrix shapes, whatever the mix, order, comments and blank lines. Quantities derived from a structural summary (positions, displacements, modes, tables) are consistent with the file the object was read from, for each object.',
  ['inputs', 'histories'], 'every document of the subset, every pair of objects',
  'one summary file is read',
  ['weio/mini_yaml.py', 'weio/fast_summary_file.py'], [('yaml_read', 'weio/mini_yaml.py'), ('subDyn helpers', 'weio/fast_summary_file.py')],
  'exhaustive exploration of all documents of up to 3 entries over an alphabet of entries, and of two-object histories',
  'documents of 1..3 entries out of 20 kinds'),
P('C14', 'TurbSim wind boxes decode exactly and round-trip within 16-bit resolution',
  'A TurbSim full-field file is read with every velocity component, tower point, coordinate, time and header value where the format puts it. A box that is written and read back keeps its grid, tower, times and identification and every velocity to within the 16-bit resolution of its component, including constant and nearly constant fields.',
  ['inputs', 'histories'], 'every grid, tower, scaling and field',
  'tests compare one written box and a few values',
  ['weio/turbsim_file.py'], [('read', 'weio/turbsim_file.py:TurbSimFile.read'), ('write', 'weio/turbsim_file.py:TurbSimFile.write')],
  'exhaustive exploration of generated boxes from an independent encoder; write/read generations',
  'grids 1..3 x 1..4, 1..5 steps, 0..3 tower points, 7 x 6 x 5 fields per component'),
P('C15', 'Wind-box queries and modifiers do what they say, in any order',
  'On a TurbSim box, point, line, plane, profile, correlation, spectrum, hub and probe queries return the values of the box at the nearest grid points and leave the box unchanged; making it periodic, scaling it and converting it from or to Mann boxes changes exactly what is documented (field, tower, times, identification). This holds after any sequence of such operations.',
  ['histories', 'inputs'], 'every sequence of operations on every box and every query location',
  'no test calls these operations',
  ['weio/turbsim_file.py', 'weio/mannbox_file.py'], [('valuesAt/closestPoint/planes/crosscorr/csd', 'weio/turbsim_file.py'), ('makePeriodic/scale/fromMannBox/toMannBox', 'weio/turbsim_file.py')],
  'exhaustive exploration of operation histories against an array model',
  'histories of 2..3 operations out of 25 on 4 boxes'),
P('C16', 'Mann boxes keep every velocity at its place through reading and writing',
  'A Mann box file is read with each velocity at its (x, y, z) position, the lateral axis turned so that y increases, using dimensions from the options or the file name, and coordinates following the given spacings and origins. Writing gives back exactly the file, and point, profile and table queries refer to the same positions, for any history of reads and writes on one object.',
  ['inputs', 'histories'], 'every box size, name, spacing, origin and history',
  'no test reads a Mann box',
  ['weio/mannbox_file.py'], [('read/write with y flip', 'weio/mannbox_file.py'), ('y, z, t', 'weio/mannbox_file.py')],
  'exhaustive exploration of all boxes up to 4x4x4 from an independent encoder, options and histories',
  'sizes 1..4^3, 7 name styles, coordinate options'),
P('C17', 'HAWC2 result files decode exactly, in all layouts, and round-trip',
  'A HAWC2 or BHawC result pair (text or scaled binary) opened by either of its two files is read with the channels, units, descriptions and values it encodes, and tables name channels from their name, body, node and unit. Writing and reading back keeps values (8 digits), names, units and descriptions, and channels requested individually, in any order and over several calls, are the right ones.',
  ['inputs', 'histories'], 'every layout, number of channels and scans, description and request history',
  'tests read three files, compare two values and compare two writes of the same object',
  ['weio/hawc2_dat_file.py', 'weio/wetb/hawc2/Hawc2io.py'], [('_ReadSelFile/ReadBinary/ReadAscii', 'weio/wetb/hawc2/Hawc2io.py'), ('channel cache', 'weio/wetb/hawc2/Hawc2io.py:__call__'), ('_write', 'weio/hawc2_dat_file.py')],
  'exhaustive exploration of generated result files and of channel-request histories',
  '3 layouts, 1..4 channels and scans, 13 channel kinds'),
P('C18', 'HAWC2 command files keep their structure through editing and saving',
  'A HAWC2 command file is read as the tree of its blocks and lines, with repeated names kept apart, in order, including included files. Adding, changing, deleting or copying lines and blocks changes exactly that part, and saving and re-reading gives back the same tree, values and comments, for any sequence of edits.',
  ['inputs', 'histories'], 'every tree and every sequence of edits',
  'no example or test edits a command file',
  ['weio/wetb/hawc2/htc_contents.py', 'weio/wetb/hawc2/htc_file.py', 'weio/hawc2_htc_file.py'], [('HTCContents/HTCSection/HTCLine', 'weio/wetb/hawc2/htc_contents.py'), ('HTCFile.load/save', 'weio/wetb/hawc2/htc_file.py')],
  'exhaustive exploration of generated trees and of edit histories against a reference tree',
  'trees of depth 3, histories of 3 edits, every byte value, include layouts'),
P('C19', 'HAWC2 blade tables (ae, pc, st) are read, interpolated and rewritten faithfully',
  'HAWC2 aerodynamic layout, profile coefficient and structural files are read with all sets (whatever their numbers), sections and columns of the file; chord, thickness, structural values and coefficients asked for at any position within the tables are the linear interpolation of the tables; and writing, after any additions or changes of sets, gives a file that reads back as the same tables. The element stiffness matrix and shape functions computed from a structural table are those of the Timoshenko beam with the properties of the table at the given radius.',
  ['inputs', 'histories'], 'every number of sets and sections, every position, every table',
  'tests check a few table values',
  ['weio/hawc2_ae_file.py', 'weio/hawc2_pc_file.py', 'weio/hawc2_st_file.py', 'weio/wetb/hawc2/ae_file.py', 'weio/wetb/hawc2/pc_file.py', 'weio/wetb/hawc2/st_file.py'], [('AEFile/PCFile/StFile parsing', 'weio/wetb/hawc2'), ('writers', 'weio/hawc2_ae_file.py, weio/hawc2_pc_file.py')],
  'exhaustive exploration of generated tables and query positions against reference interpolation',
  '1..3 sets with any numbering, 1..4 sections, all nodes, midpoints and outsides, 5 text layouts, edits; beam elements: all combinations of 4 shear centres, 3 inertias, 3 shear factors, 2 materials, 3 lengths, 7 radii'),
P('C20', 'FLEX time-series files decode exactly in all versions',
  'A FLEX result file of a supported version (0, 2 and 3: 16-bit samples with one scaling factor per channel, stored by step or by channel, with or without a date in its header) is read with the number of channels and steps, the time axis (one time per row, start plus multiples of the step), the scaled values and the sensor names and units that the sensor file of its folder gives; without a sensor file the channels get generic names, and a sensor file with another number of sensors is refused, so that names are never shifted.',
  ['inputs', 'configurations'], 'every version, number of channels and steps, scaling and sensor file',
  'two example files, one value each',
  ['weio/flex_out_file.py'], [('read_flex_res', 'weio/flex_out_file.py'), ('read_flex_sensor', 'weio/flex_out_file.py')],
  'exhaustive exploration of generated files of all versions from an independent encoder',
  'versions 0, 2, 3; 1..3 channels; 1..4 steps; sensor files'),
P('C21', 'FLEX blade, profile, wave and documentation files give the tables they contain',
  'FLEX blade, profile, wave-kinematics and documentation files are read with every header value, table row and column of the file, for any number of sections, profiles and lines: blades of the four versions with the columns of their version, profile sets that are written and read back the same, and every value, text, table and matrix of the documentation file, without its units and remarks. A section or polar line with missing values is refused.',
  ['inputs'], 'every number of rows, sets, columns and file version',
  'one example per format, one or two values',
  ['weio/flex_blade_file.py', 'weio/flex_profile_file.py', 'weio/flex_wavekin_file.py', 'weio/flex_doc_file.py'], [('readers', 'weio/flex_*_file.py')],
  'exhaustive exploration of generated files against the generating tables',
  'versions, 1..4 rows, 1..3 sets'),
P('C22', 'Bladed results are decoded and grouped correctly',
  'A Bladed result (header plus data file, text or binary, two or three dimensional, any precision) is read with the axes, variables, units and values of the file pair, each variable of each section in its own column; opening the project reads every result of the run that has a time axis, results with the same number of steps forming one table (which alone is returned when it is the only table made from several results), and a broken or missing result file is left out and does not corrupt the others.',
  ['inputs', 'configurations'], 'every number of variables, sections, steps, precision and set of result files',
  'tests read two cases and compare few values',
  ['weio/bladed_out_file.py'], [('BladedFile', 'weio/bladed_out_file.py'), ('read_bladed_sensor_file/read_bladed_output', 'weio/bladed_out_file.py')],
  'exhaustive exploration of generated file pairs and file sets from an independent encoder',
  '2D/3D, text/binary 4/8 bytes, 1..3 variables, 1..3 sections, 1..3 steps'),
P('C23', 'VTK meshes and fields survive reading and writing',
  'A legacy VTK file (structured points, rectilinear or structured grid, or unstructured grid in the old or 5.1 layout; text or binary) is read with the points, the cells (of the supported types, in the order of the file) and the point and cell fields (scalars, vectors, tensors and field arrays, of all numeric types) it contains, the fields of structured points also on their grid; a mesh with fields that is written, in text or binary, and read back has the same points, cells, types and field values (two components are padded to three). Incomplete files and other kinds of data sets are refused, and a write that fails leaves the target as it was.',
  ['inputs', 'histories'], 'every mesh, data type, field and encoding',
  'one structured example file is read',
  ['weio/vtk_file.py'], [('read_buffer', 'weio/vtk_file.py'), ('write', 'weio/vtk_file.py')],
  'exhaustive exploration of generated meshes from an independent encoder and of write/read',
  'all dataset kinds, 1..3 cells per axis, 2 encodings, field kinds'),
P('C24', 'Tecplot tables keep variables and zones',
  'A Tecplot text file with one block of point data is read with its title, variables, zone parameters, auxiliary data and values, whatever the separation of the names and the comments, blank lines and continued lines; a table that is written and read back has the same header, variables and values whatever its size. Files without variables, with several zones, with data packed by variable or with rows that do not match the variables are refused.',
  ['inputs', 'histories'], 'every number of variables, rows, zones and layout',
  'two example files are read',
  ['weio/tecplot_file.py'], [('read_tecplot', 'weio/tecplot_file.py'), ('write', 'weio/tecplot_file.py')],
  'exhaustive exploration of generated files and write/read histories',
  '1..4 variables, 1..5 rows and sizes around display limits'),
P('C25', 'Graph models stay consistent under construction and refinement',
  'A graph of nodes, elements and properties answers connectivity, lookup, property interpolation, element division, export and mode queries consistently with what was added, after any sequence of additions, and graphs built from substructure input files contain exactly the joints, members and properties of the file.',
  ['histories', 'inputs'], 'every sequence of additions and queries',
  'no test builds a graph',
  ['weio/tools/graph.py', 'weio/fast_input_file_graph.py'], [('GraphModel', 'weio/tools/graph.py'), ('fastToGraph', 'weio/fast_input_file_graph.py')],
  'exhaustive exploration of construction/query histories against a plain adjacency model',
  'histories of 3 operations from 3 starting graphs'),
P('C26', 'A cut-off binary file is never accepted as complete',
  'For every binary format whose header (or companion file) announces its size, a file cut off at any byte, and a text data file of announced size cut between two values, is rejected with an error instead of being returned with missing, shifted or invented values. Optional trailing sections (VTK fields) may be missing as a whole, and formats which do not announce the number of steps (FLEX) are accepted with whole steps only.',
  ['crash_points', 'fault_sequences', 'inputs'], 'every cut position of every file',
  'no test reads a damaged file',
  ['weio/fast_output_file.py', 'weio/turbsim_file.py', 'weio/mannbox_file.py', 'weio/wetb/hawc2/Hawc2io.py', 'weio/flex_out_file.py', 'weio/bladed_out_file.py', 'weio/vtk_file.py'], [('sized reads', 'each binary reader')],
  'exhaustive enumeration of every truncation point of generated and example files, differential against the complete file',
  'every byte position of small files of every binary format'),
P('C27', 'Tabular containers (Excel, Parquet, NetCDF, TDMS) keep tables intact',
  'Tables stored in Excel workbooks, Parquet, NetCDF (up to two dimensions) and TDMS files are read with every sheet, group, column, row and value, and tables written by the library (Excel, Parquet) read back the same.',
  ['inputs', 'histories'], 'every number of sheets/groups, columns, rows, types and values',
  'one Excel and one Parquet example',
  ['weio/excel_file.py', 'weio/parquet_file.py', 'weio/netcdf_file.py', 'weio/tdms_file.py'], [('readers and writers', 'weio/excel_file.py, weio/parquet_file.py, weio/netcdf_file.py, weio/tdms_file.py')],
  'exhaustive exploration of generated containers against the generating tables',
  '1..3 sheets, 1..3 columns, 0..3 rows, types'),
P('C28', 'Small wind-energy formats give the tables they contain',
  'HAWCStab2 power, induction and Campbell files, BModes modes, ROSCO performance tables, CACTUS inputs and results, TurbSim user time series and FAST deterministic wind files are read with every value and name of the file (units where the file has them), and those that can be written read back the same.',
  ['inputs', 'histories'], 'every number of rows, columns and sections',
  'one example file each',
  ['weio/hawcstab2_pwr_file.py', 'weio/hawcstab2_ind_file.py', 'weio/hawcstab2_cmb_file.py', 'weio/bmodes_out_file.py', 'weio/rosco_performance_file.py', 'weio/cactus_file.py', 'weio/turbsim_ts_file.py', 'weio/fast_wind_file.py', 'weio/raawmat_file.py'], [('readers', 'weio/*_file.py')],
  'exhaustive exploration of generated files against the generating tables',
  '1..4 rows/columns/sections'),
P('C29', 'A HAWC2 command file knows the files of its model and how it differs from another',
  'The files that a HAWC2 command file names as inputs (included files, structural, aerodynamic, controller, wind, wake, wave, soil and force files) and as results are listed by it, all of them and no others, whatever blocks it has or lacks; they are looked up relative to the model directory, which is found from the place of the command file, whatever the letter case and slashes; the structural tables of its bodies are those of the named file and set; and the comparison of two command files is empty exactly if their blocks, lines, values and sensors agree, and otherwise shows every line that differs.',
  ['inputs', 'histories'], 'every combination of blocks and references, every place of the files, every set of edits between two files',
  'no test lists or compares files',
  ['weio/wetb/hawc2/htc_file.py', 'weio/wetb/hawc2/htc_contents.py', 'weio/hawc2_htc_file.py'], [('HTCFile.input_files/output_files/res_file_lst/turbulence_files/auto_detect_modelpath', 'weio/wetb/hawc2/htc_file.py'), ('compare', 'weio/wetb/hawc2/htc_contents.py'), ('HAWC2HTCFile._toDataFrame', 'weio/hawc2_htc_file.py')],
  'exhaustive exploration of models (directory layouts x references) and of edit histories against reference lists',
  'every pair of 20 input and of 14 result references, places 0..3 levels below the model directory, 2 (3) edits'),
P('C30', 'The place and name of a file, its line ends and the bytes of its remarks do not change what is read',
  'For every format, reading gives the same content, tables and written files wherever the file is (folders with blanks, dots, brackets, quotes or non-ASCII letters; relative, absolute or dotted paths), whatever its stem and the letter case of its extension (a file is written under the name that is given, and can be read from it), and whatever happens to the folder or the working directory after the read. For text formats it does not depend on the line ends (Unix or Windows), on blanks at line ends, on whether the last line is ended or followed by blank lines, nor on accented letters in remarks and descriptions: in UTF-8 for all text formats, in any 8-bit encoding for those that declare it (FAST inputs, summaries and linearizations, FLEX blades and profiles, TurbSim series, HAWC2 commands), whose bytes are kept when the file is written.',
  ['inputs', 'configurations', 'histories'], 'every supported file, every place and name, every layout of its line ends, every remark',
  'the tests read each example file once, from one folder, as it was saved',
  ['weio/file.py', 'weio/fast_input_file.py', 'weio/csv_file.py', 'weio/hawc2_dat_file.py', 'weio/wetb/hawc2/Hawc2io.py', 'weio/wetb/hawc2/htc_file.py', 'weio/bladed_out_file.py', 'weio/mini_yaml.py', 'weio/turbsim_ts_file.py'], [('File.read / write', 'weio/file.py'), ('readers opening with errors="surrogateescape"', 'weio/*_file.py'), ('companion files', 'weio/wetb/hawc2/Hawc2io.py, weio/bladed_out_file.py')],
  'exhaustive exploration of all (file, transformation) pairs, each compared with the untransformed read of the real code and with the bytes it writes',
  'all corpus files x 7 line layouts, 11 folders x 4 paths, 4 stems x 3 extension cases, remarks at up to 8 (100) lines of each file x 2 encodings, 3 events between reading and use'),
P('C31', 'A copy of a file object is equal to it and independent of it',
  'For every format, a copy of a file object (copy.deepcopy, or pickle as used to send it to another process) has the same type, content, tables, answers of its methods, and writes the same bytes as the original, whatever was done with the original before. From then on the two are independent: changing, re-reading or writing one of them, or deleting the file, does not change the other.',
  ['histories', 'inputs'], 'every file and every sequence of copies, edits, reads and writes',
  'no test copies an object',
  ['weio/file.py', 'weio/fast_input_file.py', 'weio/hawc2_st_file.py', 'weio/wetb/hawc2/st_file.py', 'weio/wetb/hawc2/htc_contents.py', 'weio/vtk_file.py'], [('File', 'weio/file.py'), ('StFile', 'weio/wetb/hawc2/st_file.py'), ('HTCContents.__getattr__', 'weio/wetb/hawc2/htc_contents.py')],
  'exhaustive exploration of histories of copies, edits, reads and writes of the real objects, each compared with an object that was read anew and got the same edits',
  'all corpus files x 2 (thorough 3) ways to copy x 4 histories before x 5 events after; all sequences of 3 (thorough 4) operations out of 9 on a pool of objects, one file of each class'),
]

NA = {}   # id -> reason, for properties that this family cannot decide


def main():
    ids = []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
        elif os.path.exists(os.path.join(HERE, 'mc', 'props', i.lower() + '.py')):
            checks.append(dict(property=i, quick_cmd='bash check.sh %s quick' % i, thorough_cmd='bash check.sh %s thorough' % i,
                               technique='model checking: ' + p['_technique'], level='model_checking', level_note='bounds: ' + p['_note']))
        else:
            na.append(dict(property=i, reason='check not built yet (work in progress)'))
    m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
             notes='Every check runs the real code of /repo from its working tree; nothing is built. No hooks in /repo are needed.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
