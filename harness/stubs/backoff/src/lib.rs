//! `future::retry_notify` with the default exponential policy.
use std::time::Duration;

/// An error that may or may not go away.
#[derive(Debug)]
pub enum Error<E> {
	Permanent(E),
	Transient { err: E, retry_after: Option<Duration> },
}

impl<E> Error<E> {
	pub fn permanent(err: E) -> Self {
		Error::Permanent(err)
	}
	pub fn transient(err: E) -> Self {
		Error::Transient { err, retry_after: None }
	}
	pub fn retry_after(err: E, duration: Duration) -> Self {
		Error::Transient { err, retry_after: Some(duration) }
	}
}

impl<E: std::fmt::Display> std::fmt::Display for Error<E> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		match self {
			Error::Permanent(err) | Error::Transient { err, .. } => err.fmt(f),
		}
	}
}

impl<E> From<E> for Error<E> {
	fn from(err: E) -> Self {
		Error::Permanent(err)
	}
}

pub mod default {
	pub const INITIAL_INTERVAL_MILLIS: u64 = 500;
	pub const MULTIPLIER: f64 = 1.5;
	pub const MAX_INTERVAL_MILLIS: u64 = 60_000;
	pub const MAX_ELAPSED_TIME_MILLIS: u64 = 900_000;
}

#[derive(Clone, Debug)]
pub struct ExponentialBackoff {
	pub initial_interval: Duration,
	pub multiplier: f64,
	pub max_interval: Duration,
	pub max_elapsed_time: Option<Duration>,
}

impl Default for ExponentialBackoff {
	fn default() -> Self {
		Self {
			initial_interval: Duration::from_millis(default::INITIAL_INTERVAL_MILLIS),
			multiplier: default::MULTIPLIER,
			max_interval: Duration::from_millis(default::MAX_INTERVAL_MILLIS),
			max_elapsed_time: Some(Duration::from_millis(default::MAX_ELAPSED_TIME_MILLIS)),
		}
	}
}

pub mod future {
	use super::{Error, ExponentialBackoff};
	use std::{future::Future, time::Duration};

	pub async fn retry_notify<I, E, Fn, Fut, N>(
		backoff: ExponentialBackoff,
		mut operation: Fn,
		mut notify: N,
	) -> Result<I, E>
	where
		Fn: FnMut() -> Fut,
		Fut: Future<Output = Result<I, Error<E>>>,
		N: FnMut(E, Duration),
	{
		let mut wait = backoff.initial_interval;
		let mut elapsed = Duration::ZERO;
		loop {
			match operation().await {
				Ok(v) => return Ok(v),
				Err(Error::Permanent(e)) => return Err(e),
				Err(Error::Transient { err, retry_after }) => {
					let d = retry_after.unwrap_or(wait);
					if backoff.max_elapsed_time.is_some_and(|m| elapsed + d > m) {
						return Err(err);
					}
					notify(err, d);
					tokio::time::sleep(d).await;
					elapsed += d;
					wait = wait.mul_f64(backoff.multiplier).min(backoff.max_interval);
				}
			}
		}
	}

	pub async fn retry<I, E, Fn, Fut>(backoff: ExponentialBackoff, operation: Fn) -> Result<I, E>
	where
		Fn: FnMut() -> Fut,
		Fut: Future<Output = Result<I, Error<E>>>,
	{
		retry_notify(backoff, operation, |_, _| ()).await
	}
}
