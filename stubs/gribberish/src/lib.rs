//! Stand-in for the part of the `gribberish` crate's interface that surfrs uses. Nothing is
//! decoded here: a monitor makes each message from the grid and the header values it wants
//! surfrs to see. Regular latitude/longitude grids only, stored row by row from the first
//! latitude, the ends being the first and last grid points (as in GRIB2's grid template 3.0).

#[macro_export]
macro_rules! unwrap_or_return {
    ($e:expr, $err:expr) => {
        match $e {
            Some(v) => v,
            None => return Err($err),
        }
    };
}

pub mod error {
    #[derive(Debug, Clone)]
    pub enum GribberishError {
        MessageError(String),
    }
    impl std::fmt::Display for GribberishError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            let GribberishError::MessageError(s) = self;
            f.write_str(s)
        }
    }
    impl std::error::Error for GribberishError {}
}

pub mod templates {
    pub mod product {
        pub mod tables {
            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum FixedSurfaceType {
                GroundOrWater,
                OrderedSequence,
                Missing,
            }
        }
    }
}

pub mod message {
    use crate::error::GribberishError;
    use crate::templates::product::tables::FixedSurfaceType;
    use chrono::{DateTime, Utc};

    type R<T> = Result<T, GribberishError>;

    #[derive(Debug, Clone)]
    pub struct Message {
        /// First latitude and longitude, last latitude and longitude
        pub start: (f64, f64),
        pub end: (f64, f64),
        /// Rows (latitudes) and columns (longitudes)
        pub size: (usize, usize),
        pub values: Vec<f64>,
        pub unit: String,
        pub abbrev: String,
        pub date: DateTime<Utc>,
        pub surface: (FixedSurfaceType, Option<f64>),
        /// Names of the questions this message fails to answer
        pub fails: Vec<&'static str>,
    }

    #[derive(Debug, Clone)]
    pub struct LatLngProjection {
        start: (f64, f64),
        end: (f64, f64),
        size: (usize, usize),
    }

    impl LatLngProjection {
        pub fn bbox(&self) -> (f64, f64, f64, f64) {
            (
                self.start.1.min(self.end.1),
                self.start.0.min(self.end.0),
                self.start.1.max(self.end.1),
                self.start.0.max(self.end.0),
            )
        }
        /// The latitude of every row and the longitude of every column
        pub fn lat_lng(&self) -> (Vec<f64>, Vec<f64>) {
            let axis = |a: f64, b: f64, n: usize| {
                (0..n).map(|i| if n == 1 { a } else { a + (b - a) * i as f64 / (n - 1) as f64 }).collect()
            };
            (axis(self.start.0, self.end.0, self.size.0), axis(self.start.1, self.end.1, self.size.1))
        }
        pub fn latlng_start(&self) -> (f64, f64) {
            self.start
        }
        pub fn latlng_end(&self) -> (f64, f64) {
            self.end
        }
    }

    impl Message {
        fn answer<T>(&self, what: &'static str, v: T) -> R<T> {
            if self.fails.contains(&what) {
                return Err(GribberishError::MessageError(format!("no {what}")));
            }
            Ok(v)
        }
        pub fn latlng_projector(&self) -> R<LatLngProjection> {
            self.answer("projector", LatLngProjection { start: self.start, end: self.end, size: self.size })
        }
        pub fn grid_dimensions(&self) -> R<(usize, usize)> {
            self.answer("dimensions", self.size)
        }
        pub fn data(&self) -> R<Vec<f64>> {
            self.answer("data", self.values.clone())
        }
        pub fn unit(&self) -> R<String> {
            self.answer("unit", self.unit.clone())
        }
        pub fn variable_abbrev(&self) -> R<String> {
            self.answer("abbrev", self.abbrev.clone())
        }
        pub fn forecast_date(&self) -> R<DateTime<Utc>> {
            self.answer("date", self.date)
        }
        pub fn first_fixed_surface(&self) -> R<(FixedSurfaceType, Option<f64>)> {
            self.answer("surface", self.surface)
        }
    }
}
