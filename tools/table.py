SP = "src/spectra.rs"
AN = "src/tools/analysis.rs"
WV = "src/tools/waves.rs"
SW = "src/swell.rs"
IN = "src/tools/interpolation.rs"
FCB = "src/data/forecast_cbulletin_wave_data_record.rs"
FSP = "src/data/forecast_spectral_wave_data_record.rs"
WDR = "src/data/wave_data_record.rs"
SDR = "src/data/spectral_wave_data_record.rs"
DSP = "src/data/directional_spectral_wave_data_record.rs"
GIX = "src/data/grib_index_record.rs"
TID = "src/data/tidal_data_record.rs"
NWS = "src/data/nws_weather_forecast_data_record.rs"

p("S01", "Partitioning gives each energy peak its own connected partition",
  """Partitioning a directional spectrum puts the energy on the requested number of levels and returns one partition per regional
  maximum (neighbours are the eight surrounding bins; directions wrap around, frequencies do not), every bin labelled 1 to the number of
  partitions, each partition connected and numbered from the strongest peak down. A bin whose uphill paths all lead to one maximum
  belongs to that maximum's partition, flooding down from the maxima a bin belongs to the partition that reaches it first, and where partitions meet it joins its neighbour closest in energy; with smoothing the levels are those of the Gaussian-blurred 256-shade picture of the energy. Energy arrays of the wrong length are refused.""",
  I, "every finite non-negative spectrum on any grid of at least three directions, any level count from 2 to 255, with smoothing and without",
  "The tests partition one recorded spectrum and one random grid and look at almost nothing; plateaus, the direction seam, corners and ties are never reached.",
  [SP, AN],
  [("immersion watershed", AN + " watershed"), ("neighbour table", AN + " nearest_neighbors"), ("entry point", SP + " Spectra::partition")],
  """Oracle: regional maxima and uphill reachability computed independently on the levels, and a flooding that keeps for every bin all the
  outcomes that any order of looking at the neighbours could give. Assumes finite energy; cases with a bin within 1e-7
  of a level boundary skip the level-dependent clauses.""")

p("S02", "Splitting a spectrum by its partitions conserves the energy bin by bin",
  """Splitting a spectrum by a partition map yields one spectrum per partition, on the same grid and in the same direction convention,
  which holds the original energy in exactly the bins of that partition and zero everywhere else. Taken together the parts restore the original
  energy in every bin; a limit returns only the first that many parts, each unchanged.""",
  I, "every spectrum and every partition map over its bins, with and without a limit",
  "Tests never compare the parts with the whole.",
  [SP], [("masking by label", SP + " Spectra::from_component"), ("all labels", SP + " Spectra::split_from_components")],
  "Exact comparison of every bin of every part.")

p("S03", "The sea-state summary integrates the spectrum it was given",
  """The summary of a spectrum has the significant height 4*sqrt(m0), m0 being the energy summed over all bins with each bin's own
  frequency and direction width plus WAVEWATCH's high-frequency tail, the period of the frequency with the most energy over all
  directions, and the energy-weighted mean direction that the waves come from, whatever the spectrum's own direction convention. Energy scaled by k scales the height by
  sqrt(k) and leaves period and direction alone; turning the spectrum by whole direction bins turns the direction equally.
  Depth and wind inputs change none of these.""".replace("leaves period and direction alone; turning", "leaves period and direction alone, turning").replace("equally.\n  Depth", "equally, and\n  depth"),
  I, "every spectrum with ascending frequencies and evenly spaced directions in any of the three conventions, with or without depth and wind; directions in whole degrees, rounded or cut off, where a mean direction exists",
  "Tests check a handful of recorded spectra against loosely rounded published values.",
  [SP, WV], [("bulk means", WV + " pt_mean"), ("summary", SP + " Spectra::swell_data"), ("tail", WV + " pt_mean")],
  "Oracle: independent integration over the grid, plus scaling and rotation laws and narrow seas of known height, period and direction. The tail is a quarter of the top angular frequency times the top bin's energy.")

p("S04", "Swell components are the partitions' own means, ranked by energy",
  """Every partition whose integrated height reaches 0.1 m is reported as one swell component with the height, peak period, and mean
  direction of that partition's bins alone, and with its partition number; smaller ones are left out. Components are ordered
  from most to least energetic, and a component's energy is the wave energy (kJ) of its height and period, 1029 g^2/(16 pi) H^2 T^2 / 1000,
  the summary's energy being the sum over its components.""",
  I, "every spectrum and every partition map over its bins",
  "Tests look at one recorded spectrum's components.",
  [SP, SW, WV], [("component means", WV + " pt_mean"), ("ranking", SP + " Spectra::swell_data"), ("energy", WV + " wave_energy")],
  "Oracle: independent integration of each partition's bins; assumptions as S03.")

p("S05", "Mirror-image swell components are recognised and nothing else is dropped",
  """Components are false mirror images exactly when an earlier (more energetic) component that is the first with the same period, as shown to 0.1 s, comes from
  the opposite direction within 10 degrees. Filtering removes exactly those and keeps the other components unchanged and in order.""",
  I, "every list of components, ordered from most to least energetic, directions 0 to 360",
  "No test covers it.",
  [SW], [("opposite pairs", SW + " SwellSummary::probable_false_components"), ("filter", SW + " SwellSummary::filtered_components")],
  "Reference computed from the definition.")

p("S06", "Tracked swells keep one identity from birth to death",
  """Tracking partitions through time gives every swell exactly one id per time step, no two swells of a step sharing one and no id ever given to
  a new swell after another swell has had it. A swell continues an earlier one only within the allowed change of direction (measured the short way round north) and takes the closest match in direction and period;
  every earlier swell has at most one heir per step. The first step's ids and all other properties of the swells are left alone.""".replace(";\n  every earlier swell", ", and\n  every earlier swell"),
  ["histories", "inputs"], "every sequence of time steps with any number of swells each, including empty steps; first-step ids distinct, times ascending",
  "One test tracks a short recorded series and only prints it.",
  [WV], [("matching", WV + " track_partitions"), ("allowed period change", WV + " dfp_wind_sea, dfp_swell_sea")],
  "Offline checker over recorded id histories: uniqueness, freshness, greedy matching. Near-equal scores leave the choice open.")

p("S07", "Regridding a spectrum keeps its shape, bounds, and energy places",
  """Interpolating a spectrum to other frequencies and directions returns a spectrum on exactly that grid, in degrees and coming-from convention, never
  negative, zero below the source's lowest frequency, the top frequency's values above its highest, and exactly the source values on the source's own bins.
  In between, every value lies within the range of the source bins around it and follows the monotone cubic interpolation over direction and log frequency.""",
  I, "every spectrum in any convention and every ascending target grid with directions in 0 to 360",
  "Tests regrid one spectrum and compare its size.",
  [SP, IN], [("two-pass interpolation", SP + " Spectra::interpolate_to_grid"), ("monotone cubic", IN + " PchipInterpolator"), ("direction wrap", IN + " circular_pchip_interpolate")],
  "Oracle: an independent monotone-cubic reference, bounds by the surrounding bins, and smooth seas known everywhere.")

p("S08", "Monotone interpolation hits its knots and never overshoots",
  """Interpolating between knots returns the knot's value at each knot, stays between the two neighbouring knots' values everywhere, is monotone where the knots are,
  linear where they lie on a line, and holds the end values outside them. It is the piecewise cubic with weighted harmonic slopes, one-sided at the ends, limited as by Fritsch and Carlson. Over directions the same holds with the circle closed: the
  result has period 360 degrees and is interpolated across north like anywhere else.""",
  I, "every ascending knot set with finite values, every target, any even or irregular direction set",
  "Tests try a few evenly spaced knots.",
  [IN], [("slopes and Hermite form", IN + " PchipInterpolator::new, interpolate"), ("closing the circle", IN + " circular_pchip_interpolate")],
  "Oracle: that cubic written independently, plus bounds and monotonicity checked at dense probes.")

p("S09", "One-dimensional spectra and moments are the integrals they claim to be",
  """Reducing a spectrum to frequencies or to directions sums the energy of each frequency or direction times the width of the bins summed over; moments
  per frequency and per direction and the mean direction per frequency are the corresponding weighted sums, and the energy range is the smallest and largest bin.
  A bin's width is the distance to its lower neighbour (the first bin's to its upper).""",
  I, "every spectrum in any direction convention", "Tests cover one small grid without checking the sums.",
  [SP, "src/tools/vector.rs"], [("oned", SP + " Spectra::oned"), ("moments", SP + " mom_f, mom_d, mean_wave_direction_f"), ("widths", SP + " dk, dth")],
  "Direct sums over the grid.")

p("S10", "Bins are found where their frequency and direction say",
  """A whole index gives that bin's own frequency or direction and a fractional index the value in proportion between the two; the bins found for a
  frequency or direction are the two that enclose it, directions wrapping around. Energy interpolated at a frequency and direction equals the bin's energy on a bin and the bilinear mix of the four enclosing bins
  between them, across north too, and the outermost bin's values beyond the outer frequencies.""",
  I, "every spectrum with ascending frequencies and directions; every index, frequency and direction",
  "Tests do not reach the wrap, the ends or exact bins.",
  [SP, AN], [("fractional lookup", SP + " ik, ith"), ("enclosing bins", SP + " closest_k, closest_th"), ("bilinear", SP + " interp_energy")],
  "Independent lookups and bilinear mix.")

p("S11", "The polar image shows, at every pixel, the nearest bin of the spectrum",
  """In the square polar image of a spectrum (north up, east to the right, the longest shown period at the rim, the period threshold setting the scale and the exponent its
  spacing), every pixel shows the value of the bin nearest to it, and pixels are blank only where no bin lies within the threshold. Projecting through a
  precomputed map gives the same image as projecting directly.""",
  I, "every spectrum in any convention, any image size, threshold and exponent",
  "Tests only check the size.", [SP],
  [("projection map", SP + " compute_cartesian_projection_map"), ("drawing", SP + " project_cartesian_with_map, project_cartesian")],
  "Brute-force nearest bin per pixel; pixels equally near two bins may show either.")

p("S12", "Contour polygons enclose exactly the cells above their threshold",
  """Contouring a field returns, for each threshold, polygons that contain every grid cell above the threshold and none below it and run between neighbouring cells where the values, interpolated, meet it, with the threshold, its normalised value and its label
  as properties, in the coordinates of the grid asked for and within it. Contours on a global longitude grid continue across its seam, cells without data are outside all contours, and contours of a
  spectrum are drawn around the frequencies and directions that exceed the threshold.""",
  I, "every regular field, plain, on regional and global longitude grids with missing cells, and as spectra",
  "Tests run it once and compare nothing.",
  ["src/tools/contour.rs", SP], [("contours", "src/tools/contour.rs compute_contours, compute_latlng_gridded_contours"), ("spectral contours", SP + " Spectra::contoured")],
  "Point-in-polygon tests of interior cells; values equal to a threshold and border cells are not decided.")

p("S13", "Directional buoy spectra are rebuilt without losing measured energy",
  """Building a directional spectrum from a buoy's measured density, two directions and two spreading coefficients gives, in every bin, the buoy's Fourier
  series E/pi (1/2 + r1 cos(d-a1) + r2 cos 2(d-a2)) with negative values set to zero. Where nothing is negative, the energy over the directions of a frequency sums to the measured
  density, and a frequency with any missing coefficient holds no energy and disturbs no other.""",
  I, "every set of coefficients, missing values included, and every even direction set over the circle",
  "Tests rebuild one recorded hour.", [DSP],
  [("series", DSP + " DirectionalSpectralWaveDataRecord::new")],
  "Formula evaluated independently in every bin.")

p("D01", "NDBC wave summary rows are read field by field as written",
  """Reading a buoy's wave summary file yields one record per row, in file order, each with the row's own UTC time and, for every column (significant, swell and wind-wave
  heights, swell and wind-wave periods, compass directions, steepness, average period, mean direction in degrees), the value written there, named for what it measures and in its unit. Missing values (MM) are absent, never zero, and comment
  lines yield nothing.""",
  I, "every file with NDBC's fifteen columns: any dates, spacing, line endings, missing values",
  "Tests read a few recorded rows and check one or two fields.", [WDR, "src/data/parseable_data_record.rs"],
  [("row to record", WDR + " WaveDataRecord::from_data_row"), ("rows of a file", WDR + " WaveDataRecordCollection::records")],
  "Generated files compared with what was written.")

p("D02", "Spectral density and direction rows and spectra are read as written",
  """Reading a buoy's spectral density or direction file yields one record per row, in order, with the row's UTC time, its separation frequency if the file has one, and every
  value with its frequency, exactly as written and in order, whatever the spacing and however many pairs the row has. A directional spectrum built from the five records of an hour has the density record's time and frequencies.""",
  I, "every file of the layout with any number of frequencies; series over the same frequencies",
  "Tests count the values of recorded files.", [SDR, DSP],
  [("pairs", SDR + " SpectralWaveDataRecord::from_data_row"), ("five series", DSP + " from_data_records")],
  "Generated files compared value by value.")

p("D03", "Model bulletins are dated, read and summarised as written",
  """Reading a WAVEWATCH III point bulletin yields its location, model run time, and one record per forecast hour in order, dated by day and hour counted on from the run across the ends of months and years, with the
  total height and each swell system's height, period and coming-from direction as written, each named for what it is. Heights are given in feet and delivered in metres, and a system's energy is that of its height in metres and its period. A
  row's summary has its total height and the first system's period and direction over all its systems as components, and a row without systems gives an insufficient-data error for it.""",
  I, "every bulletin in NOAA's layout: any run time, up to 16 days, 0 to 6 systems per row",
  "Tests read one recorded bulletin that stays inside a month.", [FCB],
  [("header and rows", FCB), ("dates", FCB + " ForecastCBulletinWaveRecord")],
  "Generated bulletins compared with what was written.")

p("D04", "Model spectra are read value by value with their location and time",
  """Reading a WAVEWATCH III spectral file yields, for every time in it, the date, place, depth, wind and current of that row, named as such, and a spectrum with the file's frequencies and directions and each bin's
  energy in its own place. A sea with one lone system therefore shows that system's height, period and coming-from direction.""",
  I, "every file in NOAA's layout with up to 99 frequencies and directions, one point and any number of times",
  "The spectral file tests are not among the reliable ones; those that exist check a count.", [FSP],
  [("header and blocks", FSP)],
  "Generated files compared value by value, and lone systems by physics.")

p("D05", "GRIB index lines become records with their own offsets and names",
  """Reading a GRIB index yields one record per line with its message number, byte offset, run date, variable, level and forecast fields exactly as
  written, in order.""",
  I, "every index with one message per line", "Tests read one recorded index.", [GIX],
  [("line to record", GIX + " GribIndexRecord::from_data_row")], "Generated indexes compared field by field.")

p("D06", "Tide predictions and stations are read and found as published",
  """Reading a tide prediction response yields every prediction in order with its time, height and high/low kind, whether numbers come as text or as numbers. Reading the station
  list yields each station with id, name, state and position; a station is found by its id exactly when it is in the list, and its map feature carries the same fields.""",
  I, "every well-formed response", "Tests read one recorded response and look up one station.", [TID, "src/tide_station.rs"],
  [("predictions", TID + " TidalDataRecordCollection::from_json"), ("stations", "src/tide_station.rs TideStations"), ("features", "src/tide_station.rs")],
  "Generated responses compared field by field.")

p("D07", "Weather forecasts are read period by period as published",
  """Reading a weather service forecast yields one record per period, in order, with its start and end in UTC, temperature, humidity, dew point, wind speed and direction, daytime flag and texts, each named for what it is and in the unit published
  for it. Values published as null are absent; a wind speed given as a range reads as its first value.""",
  I, "every well-formed forecast response", "Tests read one recorded response.", [NWS],
  [("periods", NWS + " NwsWeatherForecastDataRecord"), ("collection", NWS + " from_json, records")],
  "Generated responses compared field by field.")

p("D08", "Malformed feed text is refused without a panic and without losing good rows",
  """No row, header or file of any text feed makes the library panic: damaged rows are skipped or refused with an error, and no record is made of missing or unreadable required fields
  or an impossible date. Undamaged rows before and after a damaged one yield the same records as without it, and every spectrum delivered has one energy per bin.""",
  ["inputs", "fault_sequences"], "every truncation, deletion, replacement and insertion in rows and headers of the buoy, bulletin, spectral, index, tide and weather feeds (no quote characters)",
  "Tests read only well-formed files.", [WDR, SDR, FCB, FSP, GIX, TID, NWS],
  [("row errors", "src/data/parseable_data_record.rs DataRecordParsingError"), ("row readers", "src/data/*.rs from_data_row")],
  "Panic watch and comparison of damaged against undamaged files.")

p("D09", "Records written to JSON are read back as the same records",
  """Every record the library reads or computes (buoy, bulletin, spectral, tide and weather records, swells, summaries, spectra, locations, stations, units, directions) can be written as JSON and read back with every field
  equal to the original.""",
  I, "every record of every type with finite numbers, including absent values", "Tests never read a record back.",
  ["src/data", "src/dimensional_data.rs", "src/tools/serde.rs", SP, SW, "src/location.rs"],
  [("derived and custom serialisation", "src/dimensional_data.rs, src/units/mod.rs, src/tools/serde.rs")],
  "Values compared before and after, numbers to 1e-12.")

p("D12", "Request addresses ask for exactly the station, time, and place given",
  """The address for tide predictions names the station, the begin and end dates and times to the minute, interval, datum and units that were asked for, in GMT and as JSON. The addresses for weather name the
  office, grid cell and kind of forecast, or the latitude and longitude, that were asked for.""",
  I, "every station, time span, interval and unit, office, cell and place", "Tests compare one or two addresses.",
  ["src/tide_station.rs", "src/weather.rs"], [("tides", "src/tide_station.rs tidal_data_url"), ("weather", "src/weather.rs")],
  "Addresses taken apart and compared parameter by parameter.")

p("U01", "Unit conversion follows the defining factors",
  """Converting a value between related units (lengths, speeds, temperatures, pressures) multiplies it by the ratio of their SI definitions, temperatures with their offsets, and back again
  gives the value. Converting to a system of units picks for every unit its counterpart there (metric, English, knots), and a unit without counterpart is kept with its value; a system's constants (density of sea water, earth's radius) are the same quantity in its units.""",
  I, "every value and every pair of related units and every unit system; decimal factors and temperatures exactly, others within 0.01%, those of knots within 0.11%",
  "Tests convert a few values one way.", ["src/units/mod.rs"],
  [("factors", "src/units/mod.rs Unit::convert"), ("systems", "src/units/mod.rs Unit::convert_system")],
  "SI definitions as reference, all pairs.")

p("U02", "Changing the units of a record changes none of its physical quantities",
  """Converting a record, swell or summary to another unit system leaves every measurement in it the same physical quantity, in the unit of that
  system, through any chain of conversions. Missing measurements stay missing; times, directions and all else stay untouched.""",
  ["inputs", "histories"], "every record type, every chain of unit systems", "Tests convert one record once.",
  ["src/data", "src/dimensional_data.rs", SW], [("measurements", "src/dimensional_data.rs to_units"), ("records", "src/data/*.rs to_units")],
  "Physical quantities of all measurements compared before and after chains.")

p("U03", "Directions keep their angle, name, and sense",
  """A direction made from whole degrees, radians or a compass name has that angle (radians to the nearest degree) and the nearest of the sixteen compass points as name; compass names are read in
  any letter case and stand at multiples of 22.5 degrees (to the nearest degree). Inverting or flipping turns it by 180 degrees within 0 to 360, opposite directions are those 170 to 190 degrees apart, and each convention
  is turned to coming-from degrees by its own rule.""",
  I, "all degrees 0 to 360 and all pairs of them, all names, any radians in that range", "Tests check a few angles.",
  ["src/units/direction.rs", "src/units/cardinal_direction.rs"],
  [("angles", "src/units/direction.rs"), ("names", "src/units/cardinal_direction.rs from_degrees, from_str")],
  "Exhaustive over whole degrees and pairs, sampled for radians.")

p("U04", "Measurements are read, shown and labelled in their own unit",
  """Text read as a measurement gives that number in the given unit and junk or a missing marker gives an absent one, shown as missing; a present one is shown with one decimal (or as a direction) and its unit's label, and so are a swell's height, period and direction. Every usual spelling of a unit and every
  steepness word is read as what it names.""",
  I, "every number, junk text and unit spelling", "Tests cover single examples.",
  ["src/dimensional_data.rs", "src/units/mod.rs", "src/units/steepness.rs"],
  [("measurements", "src/dimensional_data.rs"), ("spellings", "src/units/mod.rs FromStr"), ("steepness", "src/units/steepness.rs")],
  "Generated text, spellings and words compared with their meaning.")

p("W01", "Wavelength, wavenumber and celerity satisfy the dispersion relation",
  """For any wave period and water depth the computed wavelength, wavenumber, celerity and group velocity satisfy linear theory, omega^2 = g k tanh(k h), and without a depth the
  deep-water limit.""",
  I, "periods 1 to 30 s over depths 0.1 to 5000 m; the iterative wavelength to 1e-8, the approximate formulas no further off than as published",
  "Tests check single values.", [WV],
  [("iteration", WV + " ldis"), ("tables and approximation", WV + " wavenu3, wavenuma"), ("speeds", WV + " celerity, wavelength")],
  "Dispersion relation solved by bisection; g = 9.81.")

p("W02", "Waves shoal, refract, and break as linear theory and the formulas say",
  """Shoaling conserves energy flux (coefficient squared = deep-water over local group velocity); refraction follows Snell's law, both turning the wave and spreading it; breaking gives the
  height 0.56 Hr^0.8 L0^0.2 for the refracted height and Weggel's depth for the slope, with the angle between swell and beach taken the short way round. Swell from behind the beach breaks nowhere.""",
  I, "every wave, depth, beach slope and beach direction up to deep-water steepness 0.1", "Tests check one wave.", [WV, SW],
  [("coefficients", WV + " shoaling_coefficient, refraction_coefficient"), ("breaking", WV + " break_wave, estimate_breaking_wave_height")],
  "Conservation laws and published formulas evaluated independently.")

p("W03", "Wave energy, moments, steepness and wind follow their formulas",
  """Wave energy is 1029 g^2/(16 pi) H^2 T^2 / 1000, spectral moments are energy times bandwidth times the power of frequency, steepness is 8 pi m2 / (g sqrt m0), and peak-frequency drift follows the published wind-sea and swell rates. A wind vector gives its speed and
  the direction the wind comes from, in whole degrees, rounded or cut off.""",
  I, "every positive height, period, moment and wind vector", "Tests check single values.", [WV, "src/tools/math.rs"],
  [("formulas", WV), ("wind", "src/tools/math.rs scalar_from_uv")], "Formulas evaluated independently.")

p("L01", "Distances are great-circle distances",
  """The distance between two places is the great-circle distance on a sphere of 6371 km (3956 miles), whichever longitude convention either is written in: zero for the same place, symmetric, and
  never longer than a detour.""",
  I, "every pair of places, coincident, close and antipodal ones included", "Tests measure one pair.", ["src/location.rs"],
  [("distance", "src/location.rs Location::distance")], "Angle between position vectors; 1e-6 relative.")

p("L02", "Longitudes and boxes mean the same in every convention",
  """A place's relative longitude lies in -180 to 180, its absolute one in 0 to 360, and both name the same meridian. A place is in a box exactly when its latitude lies between the box's
  and its longitude lies on the way east from the box's west to its east side, for boxes over the prime or the 180th meridian and in either convention too.""",
  I, "latitudes -90 to 90, longitudes -180 to 360, every box", "Tests check two boxes.", ["src/location.rs"],
  [("conventions", "src/location.rs normalize_longitude, absolute_longitude"), ("boxes", "src/location.rs within_bbox")],
  "Eastward arithmetic as reference; sides of fractional boxes left open.")

p("L03", "Sunrise and sunset are when the sun stands at the horizon",
  """For a place and date the sun stands at the horizon (-0.833 degrees) at the reported dawn-side and dusk-side times, which lie around that day's solar noon in order; in polar day and night, and for impossible places, no times are
  reported.""",
  I, "all places and dates of six decades; places with and without an elevation; altitude within 0.2 degrees at the equator to 0.6 at the poles", "Tests check one day.", ["src/solar.rs"],
  [("events", "src/solar.rs calculate_solar_events")], "Sun altitude by NOAA's series at the reported times.")

p("T01", "Model run times are the latest published run, and lists miss none",
  """For any instant the latest station run is the six-hourly run at least 6 hours old, the latest gridded run the six-hourly run at least 5 hours old, and the latest hourly run the full hour at least 2 hours
  old, across day, month and year ends. The list of runs of a span holds, in order and once each, the six-hourly run at or before its start and every later one up to and including its end.
  Any instant rounds down to the last multiple of the given hours since its midnight.""",
  I, "every instant after 1970 and every span", "Tests check a few instants.", ["src/tools/date.rs"],
  [("rounding", "src/tools/date.rs round_to_nearest_multiple_hour"), ("runs", "src/tools/date.rs closest_*, gfs_model_fmrc_datetimes")],
  "Arithmetic on seconds since 1970.")

p("N01", "Even sequences and linear interpolation are exact",
  """An even sequence of n values starts and ends at its bounds, has equal steps, and gives the same values from the front, the back and both at once, with the right remaining length. Linear and bilinear
  interpolation give the corner values at corners and the proportional mix between and beyond them.""",
  I, "every n from 0 to 400, all bounds, all boxes of non-zero size", "Tests cover a few sizes.", ["src/tools/linspace.rs", AN],
  [("sequence", "src/tools/linspace.rs"), ("interpolation", AN + " lerp, bilerp")], "Direct formulas, all ways of taking a sequence.")

p("N02", "Sorting, differences, ranges, and packing keep their values",
  """Sort orders are permutations that put the series in ascending order with ties in their first order; differences and ranges are those of the series, ranges ignoring gaps; filling replaces exactly the gaps. Packing a
  series to whole levels keeps its order and its ends, and unpacking gives each value within one level.""",
  I, "every series without NaN (ranges: with gaps)", "Tests cover tiny series.", ["src/tools/vector.rs"],
  [("orders", "src/tools/vector.rs argsort, argsort_partial"), ("ranges", "src/tools/vector.rs min_max, min_max_fill"), ("packing", "src/tools/vector.rs bin, unbin")],
  "Defining conditions and references.")

p("N03", "Peaks and neighbours are exactly those that the definition names",
  """Peak detection returns exactly the turning points of a series that remain when swings up to the given threshold are ignored: maxima and minima alternate from a maximum on, and neighbours differ by more than the threshold; the neighbours of a grid cell are the
  surrounding cells, wrapping around in direction and not in frequency, each once.""",
  I, "every series without NaN and every threshold; every grid of at least three directions and every cell", "Tests cover one series and four cells.", [AN],
  [("peaks", AN + " detect_peaks"), ("neighbours", AN + " nearest_neighbors")], "References from the definitions.")

p("C01", "Answers are repeatable, shareable between threads, and leave input alone",
  """Every computation over the same spectrum, text or numbers gives the same answer bit for bit, however often, in whichever order, after whatever else was asked, at whatever time and from however many threads at once it is asked, and changes nothing of the input it was given.""",
  ["schedules", "inputs", "histories"], "every input, every order of calls, every interleaving of threads that share the input",
  "Tests call each function once on one thread.", [SP, WV, SW, "src/data"],
  [("pure functions over shared references", SP), ("no global state", "src/lib.rs")],
  "Answers to twenty jobs over related inputs, and to single calls of 48 functions with few similar arguments, compared bit by bit over repetitions, orders, threads behind a barrier, and fresh processes with another clock and time zone.")

p("M01", "No input corrupts memory, overflows the stack, or keeps a call from ending",
  """Whatever text, numbers, axes, energies, labels and indexes it is given, no call reads or writes memory it does not own, overflows the stack, or goes on for ever. It answers, reports an error, or panics.""",
  ["inputs"], "every input of every public function, including NaN, infinities, denormals, axes and energies of unfit sizes, indexes out of range",
  "Tests use sensible inputs and run without instrumentation.", ["src"],
  [("indexing and iteration", AN), ("polar image tree", SP), ("interval search", IN)],
  "AddressSanitizer and Rust's unsafe-precondition checks, then MemorySanitizer (every answer is written out in full, so that a value never set is noticed), watch the workloads of all properties and hostile ones; a watchdog of 60 s CPU time per case watches for calls without end.",
  observe=["the process under AddressSanitizer and MemorySanitizer"], tech="AddressSanitizer, MemorySanitizer and a CPU-time watchdog over seeded hostile workloads of the real library")

STANDINS = "Built with stand-ins for the two dependencies that cannot be had offline; what those decode is not observed."

p("D10", "Observation rows are read field by field as written",
  """Every well-formed row of the meteorological and latest-observation feeds becomes one record with the time, station, place and the fourteen quantities of its own columns, named for what they are, in the units of the feed, absent where MM stands;
  malformed rows are passed over without losing others. The map, swell and feature forms of a record hold exactly its observed quantities, and a station's feature holds the observations of that station only.""",
  I, "every file of well-formed and malformed rows, any spacing, and every list of stations", "These modules are in no build that works offline; their tests never run, and they read two files.",
  ["src/data/meteorological_data_record.rs", "src/data/latest_obs_data_record.rs"],
  [("rows", "src/data/meteorological_data_record.rs from_data_row"), ("maps", "src/data/latest_obs_data_record.rs as_feature, latest_obs_feature_collection")],
  "Generated files compared with what was written. " + STANDINS)

p("D11", "Buoy stations are listed, named and found as published",
  """Every station of a station list is read with its own id, place, elevation, kind, owner, program and data flags, and the same again from JSON; it is active exactly if any of its data flags is set. Its name shows the words of
  the published name without notes in brackets and without its number, its feature lies at its place, and a station is found by exactly its id.""",
  I, "every well-formed station list (any order or omission of attributes)", "These modules are in no build that works offline, and their tests look at one list.",
  ["src/buoy_station.rs", "src/station.rs"], [("list", "src/buoy_station.rs BuoyStations"), ("names", "src/buoy_station.rs parsed_station_name")],
  "Generated lists compared with what was written. " + STANDINS)

p("D13", "Data addresses name exactly the station, run, hour and ranges asked for",
  """The addresses of buoy feeds, wave model bulletins, spectra and gridded output name the station, source, run day and hour, grid and three-digit forecast hour that were asked for, gridded runs being the latest at
  least 5 hours old. DAP constraints are written as var[start:stride:end], read back as the same, and ranges other than three whole numbers are refused.""",
  I, "every station, source, instant after 1970, grid and hour; every constraint", "These modules are in no build that works offline, and their tests compare a few addresses.",
  ["src/buoy_station.rs", "src/model", "src/tools/dap.rs"],
  [("stations", "src/buoy_station.rs"), ("models", "src/model/gfswave.rs, src/model/gefswave.rs, src/model/nwps.rs create_url"), ("constraints", "src/tools/dap.rs")],
  "Addresses built independently with a calendar of the monitor's own. " + STANDINS)

p("D14", "Point queries of gridded model fields read the grid around the place",
  """For a place in the box of a regular grid, whichever way its rows run, whatever meridian it crosses and however longitudes are written, the queried value is that of the nearest grid point, the interpolated one the bilinear mix of
  the four around, and those within a tolerance all and only the present values of points at most that far in both coordinates; places outside are refused. Sea states take the means of each field around the place, directions on the circle,
  and contours of a field in a unit system are those of the converted field with its label.""",
  I, "every regular grid in either longitude convention and every place away from the rounding error of its edges", "These modules are in no build that works offline, and no test queries a grid.",
  ["src/model/noaa_model.rs", "src/data/gfs_wave_grib_point_data_record.rs"],
  [("queries", "src/model/noaa_model.rs query_location_data, interp_location_data, query_location_tolerance"), ("sea states", "src/data/gfs_wave_grib_point_data_record.rs from_messages"), ("contours", "src/model/noaa_model.rs contour_data")],
  "Grids made in the stand-in for gribberish, read by eastward arithmetic in cells. " + STANDINS)

p("D15", "Binary DODS answers become one record per time, value by value",
  """An answer for spectral wave data becomes one spectrum per time, in order, with the frequencies of the answer and at every frequency the density, directions and coefficients published for that time. An answer for meteorological data
  becomes one record per time with the published quantities under their names, absent where exactly the missing value stands; reading an answer again gives the same records.""",
  I, "every answer of any number of times and frequencies, in any order of variables", "These modules are in no build that works offline, and their tests only count records.",
  ["src/data/swden_wave_data_record.rs", "src/data/meteorological_data_record.rs"],
  [("spectra", "src/data/swden_wave_data_record.rs SwdenWaveDataRecordIterator"), ("observations", "src/data/meteorological_data_record.rs StdmetDataRecordCollection")],
  "Generated answers and the recorded ones of the repository compared value by value; a stand-in for readap decodes the bytes. " + STANDINS)

p("T02", "Output hours and indexes of a model correspond one to one",
  """The hours of a model's output at even or mixed steps are listed by index in order without gaps: the hour of an index is that output's hour, the index of an hour is the last output at or before it, and ranges
  of hours or indexes list every output between their ends once. The wave models have hourly output to hour 120 and three-hourly after (global), three-hourly to 240 and six-hourly after (ensemble), and hourly (nearshore).""",
  I, "every kind of output, change of step and hour up to 600 (three-hourly output changing step at a multiple of three)", "These modules are in no build that works offline, and their tests check one index each.",
  ["src/model/noaa_model.rs", "src/model/gfswave.rs", "src/model/gefswave.rs", "src/model/nwps.rs"],
  [("hours", "src/model/noaa_model.rs ModelTimeOutputResolution")],
  "Compared with the list of output hours. " + STANDINS)
