use core::fmt;
use schemars::JsonSchema;
use serde::{Deserialize, Serialize};

use crate::math::Uint64;

/// A point in time in nanosecond precision.
///
/// This type can represent times from 1970-01-01T00:00:00Z to 2554-07-21T23:34:33Z.
///
/// ## Examples
///
/// ```
/// # use cosmwasm_std::Timestamp;
/// let ts = Timestamp::from_nanos(1_000_000_202);
/// assert_eq!(ts.nanos(), 1_000_000_202);
/// assert_eq!(ts.seconds(), 1);
/// assert_eq!(ts.subsec_nanos(), 202);
///
/// let ts = ts.plus_seconds(2);
/// assert_eq!(ts.nanos(), 3_000_000_202);
/// assert_eq!(ts.seconds(), 3);
/// assert_eq!(ts.subsec_nanos(), 202);
/// ```
#[derive(
    Serialize, Deserialize, Copy, Clone, Default, Debug, PartialEq, Eq, Ord, JsonSchema,
)]
pub struct Timestamp(Uint64);

impl PartialOrd for Timestamp {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { self.0.partial_cmp(&o.0) }
    fn lt(&self, o: &Self) -> bool { self.0 < o.0 }
    fn le(&self, o: &Self) -> bool { self.0 <= o.0 }
    fn gt(&self, o: &Self) -> bool { self.0 > o.0 }
    fn ge(&self, o: &Self) -> bool { self.0 >= o.0 }
}

impl Timestamp {
    /// Creates a timestamp from nanoseconds since epoch
    pub const fn from_nanos(nanos_since_epoch: u64) -> Self {
        Timestamp(Uint64::new(nanos_since_epoch))
    }

    /// Creates a timestamp from seconds since epoch
    pub const fn from_seconds(seconds_since_epoch: u64) -> Self {
        Timestamp(Uint64::new(seconds_since_epoch * 1_000_000_000))
    }

    /// Adds the given amount of days to the timestamp and
    /// returns the result. The original value remains unchanged.
    ///
    /// Panics if the result exceeds the value range of [`Timestamp`].
    #[must_use = "this returns the result of the operation, without modifying the original"]
    #[inline]
    pub const fn plus_days(&self, addition: u64) -> Timestamp {
        self.plus_hours(addition * 24)
    }

    /// Adds the given amount of hours to the timestamp and
    /// returns the result. The original value remains unchanged.
    ///
    /// Panics if the result exceeds the value range of [`Timestamp`].
    #[must_use = "this returns the result of the operation, without modifying the original"]
    #[inline]
    pub const fn plus_hours(&self, addition: u64) -> Timestamp {
        self.plus_minutes(addition * 60)
    }

    /// Adds the given amount of minutes to the timestamp and
    /// returns the result. The original value remains unchanged.
    ///
    /// Panics if the result exceeds the value range of [`Timestamp`].
    #[must_use = "this returns the result of the operation, without modifying the original"]
    #[inline]
    pub const fn plus_minutes(&self, addition: u64) -> Timestamp {
        self.plus_seconds(addition * 60)
    }

    /// Adds the given amount of seconds to the timestamp and
    /// returns the result. The original value remains unchanged.
    ///
    /// Panics if the result exceeds the value range of [`Timestamp`].
    #[must_use = "this returns the result of the operation, without modifying the original"]
    #[inline]
    pub const fn plus_seconds(&self, addition: u64) -> Timestamp {
        self.plus_nanos(addition * 1_000_000_000)
    }

    /// Adds the given amount of nanoseconds to the timestamp and
    /// returns the result. The original value remains unchanged.
    ///
    /// Panics if the result exceeds the value range of [`Timestamp`].
    #[must_use = "this returns the result of the operation, without modifying the original"]
    // no #[inline] here as this could be shared with all the callers
    pub const fn plus_nanos(&self, addition: u64) -> Timestamp {
        let nanos = self.0.strict_add(Uint64::new(addition));
        Timestamp(nanos)
    }

    /// Subtracts the given amount of days from the timestamp and
    /// returns the result. The original value remains unchanged.
    ///
    /// Panics if the result is not >= 0. I.e. times before epoch cannot be represented.
    #[must_use = "this returns the result of the operation, without modifying the original"]
    #[inline]
    pub const fn minus_days(&self, subtrahend: u64) -> Timestamp {
        self.minus_hours(subtrahend * 24)
    }

    /// Subtracts the given amount of hours from the timestamp and
    /// returns the result. The original value remains unchanged.
    ///
    /// Panics if the result is not >= 0. I.e. times before epoch cannot be represented.
    #[must_use = "this returns the result of the operation, without modifying the original"]
    #[inline]
    pub const fn minus_hours(&self, subtrahend: u64) -> Timestamp {
        self.minus_minutes(subtrahend * 60)
    }

    /// Subtracts the given amount of minutes from the timestamp and
    /// returns the result. The original value remains unchanged.
    ///
    /// Panics if the result is not >= 0. I.e. times before epoch cannot be represented.
    #[must_use = "this returns the result of the operation, without modifying the original"]
    #[inline]
    pub const fn minus_minutes(&self, subtrahend: u64) -> Timestamp {
        self.minus_seconds(subtrahend * 60)
    }

    /// Subtracts the given amount of seconds from the timestamp and
    /// returns the result. The original value remains unchanged.
    ///
    /// Panics if the result is not >= 0. I.e. times before epoch cannot be represented.
    #[must_use = "this returns the result of the operation, without modifying the original"]
    #[inline]
    pub const fn minus_seconds(&self, subtrahend: u64) -> Timestamp {
        self.minus_nanos(subtrahend * 1_000_000_000)
    }

    /// Subtracts the given amount of nanoseconds from the timestamp and
    /// returns the result. The original value remains unchanged.
    ///
    /// Panics if the result is not >= 0. I.e. times before epoch cannot be represented.
    #[must_use = "this returns the result of the operation, without modifying the original"]
    // no #[inline] here as this could be shared with all the callers
    pub const fn minus_nanos(&self, subtrahend: u64) -> Timestamp {
        Timestamp(self.0.strict_sub(Uint64::new(subtrahend)))
    }

    /// Returns nanoseconds since epoch
    #[inline]
    pub fn nanos(&self) -> u64 {
        self.0.u64()
    }

    /// Returns seconds since epoch (truncate nanoseconds)
    #[inline]
    pub fn seconds(&self) -> u64 {
        self.0.u64() / 1_000_000_000
    }

    /// Returns nanoseconds since the last whole second (the remainder truncated
    /// by `seconds()`)
    #[inline]
    pub fn subsec_nanos(&self) -> u64 {
        self.0.u64() % 1_000_000_000
    }
}

impl fmt::Display for Timestamp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let whole = self.seconds();
        let fractional = self.subsec_nanos();
        write!(f, "{whole}.{fractional:09}")
    }
}

