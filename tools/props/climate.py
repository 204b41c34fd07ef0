P = [
dict(id='L01', title='Weather records, averages, stations and their files are what was recorded', name='Climate',
  statement='For every temperature and base, degree days are the (truncated) differences. For every daily record, each value is converted from its file units (or left), the value that means missing in its own column, and only that, is missing, flags are ignored, and date, counts and the six weather indicators are those of the line. For every set of days, monthly average temperature and wind are the mean over accepted years of the mean of each month with enough days, the last record of a day counting, over all years by default; the coldest and warmest months are those. get_closest_station returns a station of the table with no eligible one nearer (in degrees), whatever match_max, ValueError when none reports after the date; the table is loaded once and whole. A year of a station is downloaded under its registered name at most until it is on disk; a failed or truncated download is asked for again and never served as data. geocode returns for each address the place found for exactly that address, looked up once.',
  over=['inputs', 'histories', 'configurations'], text='all histories of 4 (thorough 5) requests, failures, truncations and deletions of a file; every missing field; 60 kinds of month tables; 48 station tables',
  why='Tests use one station with nearly complete data and the network; a missing value at the wrong column, a month short of days, a cached failure or colliding address needs particular data and histories.',
  files=['fluids/design_climate.py'], mech=[('records', 'fluids/design_climate.py gsod_day_parser, StationDataGSOD'), ('stations', 'fluids/design_climate.py get_closest_station, _load_station_data'), ('files', 'fluids/design_climate.py get_station_year_text, geocode, SimpleGeolocatorCache')],
  note='cache of downloads is a state machine model-checked over all histories and replayed on the real code in scratch folders with the network replaced; averages recomputed in exact rationals',
  limits='the network, geopy and pandas are replaced or absent; when some month has too few days in every year the average is refused with an exception; the unfinished percentile_extreme_condition is not decided; distance is Euclidean in degrees, as the code documents no other.'),
]
