//! The audio properties lofty reports are those of the stream (C19).
//!
//! A random description of an audio stream is encoded the way the format's specification says, by code that
//! shares nothing with lofty, and surrounded by tags and other parts. What lofty reads from the simulated
//! device is then compared with the description.

use crate::disk::{Noise, Plan, SimDisk};
use crate::engine::*;
use crate::files::{AnyFile, POpts, file_type};
use crate::hist::gen_noise;
use crate::media::{AudioParts, Base, Feat, Fmt, Inject, atom, be, build_with, full, gen_base, opaque};
use crate::prop::Ctx;
use crate::rng::{Rng, mix};
use crate::run::catch;
use crate::stats;
use lofty::file::{AudioFile, TaggedFileExt};
use lofty::musepack::MpcProperties;
use lofty::probe::Probe;
use lofty::properties::FileProperties;
use serde::{Deserialize, Serialize};
use std::io::{Seek, SeekFrom};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Spec {
	Wav {
		tag: u16,
		channels: u16,
		rate: u32,
		bits: u16,
		frames: u32,
		/// valid bits and channel mask of WAVE_FORMAT_EXTENSIBLE
		ext: Option<(u16, u32)>,
		fact: bool,
	},
	Aiff {
		channels: u16,
		rate: u32,
		bits: u16,
		frames: u32,
		/// index into the known compression types, or a name
		aifc: Option<u8>,
		name: String,
	},
	Flac {
		rate: u32,
		channels: u8,
		bits: u8,
		samples: u64,
		md5: u64,
	},
	Vorbis {
		rate: u32,
		channels: u8,
		bitrates: [i32; 3],
		samples: u64,
	},
	Opus {
		rate: u32,
		channels: u8,
		family: u8,
		pre_skip: u16,
		gain: i16,
		samples: u64,
	},
	Speex {
		rate: u32,
		mode: u32,
		channels: u32,
		bitrate: i32,
		vbr: bool,
		samples: u64,
	},
	Mp4 {
		v1: bool,
		timescale: u32,
		duration: u64,
		/// of the sample entry
		version: u8,
		channels: u16,
		rate: u32,
		codec: Mp4Audio,
		/// entries other programs put in front
		before: u8,
	},
	Wv {
		version: u16,
		rate: u32,
		channels: u16,
		mask: u32,
		/// bytes per sample, left shift
		bytes: u8,
		shift: u8,
		hybrid: bool,
		/// log2 of the rate multiplier of DSD audio
		dsd: Option<u8>,
		samples: u32,
		blocks: u8,
		/// blocks without audio in front
		empty: u8,
		/// other metadata in front of what matters
		noise: u8,
	},
	Mac {
		version: u16,
		bits: u16,
		channels: u16,
		rate: u32,
		per_frame: u32,
		last: u32,
		frames: u32,
		descriptor: u32,
		level: u16,
	},
	Sv4to6 {
		version: u8,
		frames: u32,
		ms: bool,
		max_band: u8,
	},
	Sv7 {
		frames: u32,
		is: bool,
		ms: bool,
		max_band: u8,
		profile: u8,
		link: u8,
		freq: u8,
		level: u16,
		gapless: Option<u16>,
		fast: bool,
	},
	Sv8 {
		samples: u64,
		silence: u64,
		freq: u8,
		bands: u8,
		channels: u8,
		ms: bool,
		frames: u8,
		gain: [u16; 4],
		profile: u8,
		pns: bool,
		encoder: [u8; 3],
	},
	Mpeg {
		/// 1, 2, 25
		version: u8,
		layer: u8,
		bitrate: u8,
		rate: u8,
		mode: u8,
		mode_ext: u8,
		copyright: bool,
		original: bool,
		emphasis: u8,
		crc: bool,
		frames: u32,
		/// none, Xing, Info, VBRI
		vbr: u8,
		vbr_frames: u32,
		vbr_size: u32,
	},
	Adts {
		mpeg2: bool,
		profile: u8,
		rate: u8,
		channels: u8,
		original: bool,
		home: bool,
		crc: bool,
		len: u16,
		jitter: u16,
		frames: u32,
	},
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mp4Audio {
	/// Decoder configuration: object type indication, average bitrate, and the audio specific config
	Esds {
		indication: u8,
		average: u32,
		asc: Option<Asc>,
		/// extended length encoding of descriptors
		long: bool,
	},
	/// `mp4a` without `esds`
	Bare,
	Alac {
		bits: u8,
		channels: u8,
		average: u32,
		rate: u32,
	},
	Flac {
		bits: u8,
		channels: u8,
		rate: u32,
	},
	Drms,
	Unknown,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Asc {
	pub object: u8,
	/// index, or an explicit rate
	pub index: u8,
	pub explicit: u32,
	pub channels: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Audio {
	pub spec: Spec,
	pub seed: u64,
	pub units: u32,
	pub feats: Vec<Feat>,
	/// read through `Probe`, guessing the type
	pub guess: bool,
	pub mode: u8,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
}

const AIFC: [(&[u8; 4], &str); 13] = [
	(b"NONE", "None"),
	(b"ACE2", "ACE2"),
	(b"ACE8", "ACE8"),
	(b"MAC3", "MAC3"),
	(b"MAC6", "MAC6"),
	(b"sowt", "sowt"),
	(b"fl32", "fl32"),
	(b"fl64", "fl64"),
	(b"alaw", "alaw"),
	(b"ulaw", "ulaw"),
	(b"ULAW", "ULAW"),
	(b"ALAW", "ALAW"),
	(b"FL32", "FL32"),
];
const WV_RATES: [u32; 15] = [
	6000, 8000, 9600, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 64000, 88200, 96000, 192_000,
];
const AAC_RATES: [u32; 13] = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350];
const MPC_RATES: [u32; 4] = [44100, 48000, 37800, 32000];
const L1V1: [u32; 14] = [32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448];
const L2V1: [u32; 14] = [32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384];
const L3V1: [u32; 14] = [32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320];
const L1V2: [u32; 14] = [32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256];
const L23V2: [u32; 14] = [8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160];

const SV7_PROFILES: [&str; 16] = [
	"None", "Unstable", "Unused", "Unused", "Unused", "BelowTelephone0", "BelowTelephone1", "Telephone", "Thumb", "Radio", "Standard", "Xtreme", "Insane",
	"BrainDead", "AboveBrainDead9", "AboveBrainDead10",
];
const SV7_LINKS: [&str; 4] = ["VeryLowStartOrEnd", "LoudEnd", "LoudStart", "LoudStartAndEnd"];

fn any_rate(r: &mut Rng, max: u64) -> u32 {
	let c = [8000u64, 11025, 22050, 44100, 48000, 88200, 96000, 192_000, 352_800, 384_000, 65_535, 65_536, 65_537, 1, 655_350];
	let v = if r.chance(3, 4) { *r.pick(&c) } else { r.range(1, max) };
	v.min(max) as u32
}

fn any_samples(r: &mut Rng, rate: u32, bits: u32) -> u64 {
	let max = (1u64 << bits) - 1;
	let v = match r.below(8) {
		0 => r.below(4),
		1 => r.below(u64::from(rate) / 200 + 2),
		2 => max - r.below(5),
		3 => (1 << r.below(u64::from(bits))) + r.below(3),
		4 => r.below(max),
		_ => u64::from(rate) * r.range(1, 1000) + r.below(u64::from(rate)),
	};
	v.min(max)
}

pub fn gen_audio(r: &mut Rng) -> Audio {
	let fmt = *r.pick(&[
		Fmt::Wav,
		Fmt::Aiff,
		Fmt::Flac,
		Fmt::OggVorbis,
		Fmt::OggOpus,
		Fmt::OggSpeex,
		Fmt::Mp4,
		Fmt::Mp4,
		Fmt::Wv,
		Fmt::Wv,
		Fmt::Ape,
		Fmt::Mpc7,
		Fmt::Mpc8,
		Fmt::Mp3,
		Fmt::Mp3,
		Fmt::Aac,
	]);
	let spec = match fmt {
		Fmt::Wav => {
			let ext = r.chance(1, 3);
			let tag = *r.pick(&[1u16, 1, 1, 3, 6, 7, 0x55, 0x11]);
			let bits = match tag {
				1 => *r.pick(&[8u16, 16, 24, 32]),
				3 => *r.pick(&[32, 64]),
				6 | 7 => 8,
				_ => 0,
			};
			let channels = if tag == 0x55 || tag == 0x11 { r.range(1, 2) as u16 } else { r.range(1, 12) as u16 };
			let block = (u32::from(channels) * u32::from(bits) / 8).max(1);
			Spec::Wav {
				tag,
				channels,
				rate: any_rate(r, 4_000_000),
				bits,
				frames: (r.size(6000, &[1, 44, 441, 4410]) as u32).clamp(1, 200_000 / block),
				ext: (ext && bits > 0).then(|| (if r.chance(1, 2) { r.range(1, u64::from(bits)) as u16 } else { bits }, r.below(1 << 18) as u32)),
				fact: !matches!(tag, 1 | 3) || r.chance(1, 3),
			}
		},
		Fmt::Aiff => {
			let aifc = r.chance(1, 2);
			Spec::Aiff {
				channels: r.range(1, 12) as u16,
				rate: any_rate(r, 1 << 31),
				bits: *r.pick(&[1, 8, 12, 16, 20, 24, 32]),
				frames: r.size(3000, &[1, 44, 441]).max(1) as u32,
				aifc: aifc.then(|| r.below(AIFC.len() as u64 + 2) as u8),
				name: (0..r.below(9)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
			}
		},
		Fmt::Flac => {
			let rate = any_rate(r, 655_350);
			Spec::Flac {
				rate,
				channels: r.range(1, 8) as u8,
				bits: r.range(4, 32) as u8,
				samples: any_samples(r, rate, 36),
				md5: r.u64(),
			}
		},
		Fmt::OggVorbis => {
			let rate = any_rate(r, u64::from(u32::MAX));
			Spec::Vorbis {
				rate,
				channels: r.range(1, 255) as u8,
				bitrates: [r.below(1 << 20) as i32, if r.chance(1, 4) { 0 } else { r.below(1 << 24) as i32 }, r.below(1 << 20) as i32],
				samples: any_samples(r, rate, 40),
			}
		},
		Fmt::OggOpus => {
			let family = *r.pick(&[0u8, 0, 1, 1, 255]);
			let channels = match family {
				0 => r.range(1, 2),
				1 => r.range(1, 8),
				_ => r.range(1, 255),
			};
			Spec::Opus {
				rate: any_rate(r, 192_000),
				channels: channels as u8,
				family,
				pre_skip: *r.pick(&[0u16, 312, 3840, 1, 65535]),
				gain: r.below(65536) as u16 as i16,
				samples: any_samples(r, 48000, 40),
			}
		},
		Fmt::OggSpeex => {
			let rate = any_rate(r, 1 << 30);
			Spec::Speex {
				rate,
				mode: r.below(3) as u32,
				channels: r.range(1, 2) as u32,
				bitrate: *r.pick(&[-1, 0, 999, 1000, 27800, 44000]),
				vbr: r.chance(1, 2),
				samples: any_samples(r, rate, 40),
			}
		},
		Fmt::Mp4 => {
			let v1 = r.chance(1, 3);
			let timescale = any_rate(r, u64::from(u32::MAX));
			let rates = [8000u32, 44100, 48000, 65535];
			let codec = match r.below(10) {
				0 => Mp4Audio::Bare,
				1 | 2 => Mp4Audio::Alac {
					bits: *r.pick(&[16, 20, 24, 32]),
					channels: r.range(1, 8) as u8,
					average: r.below(2_000_000) as u32,
					rate: any_rate(r, 384_000),
				},
				3 | 4 => Mp4Audio::Flac {
					bits: r.range(4, 32) as u8,
					channels: r.range(1, 8) as u8,
					rate: any_rate(r, 655_350),
				},
				5 => {
					if r.chance(1, 2) {
						Mp4Audio::Drms
					} else {
						Mp4Audio::Unknown
					}
				},
				_ => Mp4Audio::Esds {
					indication: *r.pick(&[0x40, 0x40, 0x40, 0x66, 0x67, 0x68, 0x69, 0x6B]),
					average: if r.chance(1, 4) { 0 } else { r.below(1_000_000) as u32 },
					asc: r.chance(4, 5).then(|| Asc {
						object: *r.pick(&[1, 2, 2, 2, 3, 4, 5, 17, 23, 29, 32, 33, 34, 35, 37, 38, 39, 40, 42, 45, 46]),
						index: *r.pick(&[0, 1, 3, 4, 5, 11, 12, 15, 15]),
						explicit: r.range(1, (1 << 24) - 1) as u32,
						channels: r.range(0, 7) as u8,
					}),
					long: r.chance(1, 3),
				},
			};
			Spec::Mp4 {
				v1,
				timescale,
				duration: any_samples(r, timescale.min(1 << 20), if v1 { 48 } else { 32 }),
				version: if matches!(codec, Mp4Audio::Alac { .. }) { 0 } else { *r.pick(&[0, 0, 0, 1, 2]) },
				channels: r.range(1, 8) as u16,
				rate: *r.pick(&rates),
				codec,
				before: if r.chance(1, 8) { 1 } else { 0 },
			}
		},
		Fmt::Wv => {
			let rate = if r.chance(3, 4) { *r.pick(&WV_RATES) } else { r.range(1, (1 << 24) - 1) as u32 };
			let channels = match r.below(4) {
				0 => 1,
				1 => 2,
				2 => r.range(1, 8) as u16,
				_ => *r.pick(&[3, 5, 6, 7, 8, 18, 24, 255, 256, 257, 300, 4096]),
			};
			let bytes = r.range(1, 4) as u8;
			Spec::Wv {
				version: r.range(0x402, 0x410) as u16,
				rate,
				channels,
				mask: match r.below(4) {
					0 => 0,
					1 => r.below(1 << 8) as u32,
					2 => r.below(1 << 18) as u32,
					_ => r.u64() as u32,
				},
				bytes,
				shift: if r.chance(1, 3) { r.below(u64::from(bytes) * 8) as u8 } else { 0 },
				hybrid: r.chance(1, 3),
				dsd: r.chance(1, 8).then(|| r.range(0, 6) as u8),
				samples: any_samples(r, rate, 32).clamp(1, u64::from(u32::MAX - 1)) as u32,
				blocks: r.range(1, 5) as u8,
				empty: if r.chance(1, 6) { r.range(1, 2) as u8 } else { 0 },
				noise: if r.chance(1, 100) { 4 } else { r.below(4) as u8 },
			}
		},
		Fmt::Ape => {
			let old = r.chance(1, 2);
			let version = if old {
				*r.pick(&[3700, 3799, 3800, 3810, 3899, 3900, 3920, 3949, 3950, 3970, 3979])
			} else {
				*r.pick(&[3980, 3990, 4000, 10_000])
			};
			let per_frame = if old { 0 } else { *r.pick(&[9216, 73728, 294_912, 1]) };
			Spec::Mac {
				version,
				bits: *r.pick(&[8, 16, 24]),
				channels: if old { r.range(1, 2) as u16 } else { r.range(1, 32) as u16 },
				rate: any_rate(r, 4_000_000),
				per_frame,
				last: if r.chance(1, 6) { 1 } else { r.range(1, 9216) as u32 },
				frames: r.size(100_000, &[1, 2, 3]).max(1) as u32,
				descriptor: if r.chance(1, 5) { 52 + r.below(40) as u32 } else { 52 },
				level: *r.pick(&[1000, 2000, 3000, 4000, 5000]),
			}
		},
		Fmt::Mpc7 if r.chance(1, 3) => {
			let version = r.range(4, 6) as u8;
			Spec::Sv4to6 {
				version,
				frames: r.size(if version == 4 { 65535 } else { 10_000_000 }, &[1, 2, 3]).max(2) as u32,
				ms: r.chance(1, 2),
				max_band: r.below(32) as u8,
			}
		},
		Fmt::Mpc7 => Spec::Sv7 {
			frames: r.size(10_000_000, &[1, 2, 3]).max(2) as u32,
			is: r.chance(1, 4),
			ms: r.chance(1, 2),
			max_band: r.below(64) as u8,
			profile: r.below(16) as u8,
			link: r.below(4) as u8,
			freq: r.below(4) as u8,
			level: r.below(65536) as u16,
			gapless: r.chance(1, 2).then(|| r.range(1, 1152) as u16),
			fast: r.chance(1, 2),
		},
		Fmt::Mpc8 => {
			let samples = any_samples(r, 44100, 60);
			Spec::Sv8 {
				samples,
				silence: if r.chance(1, 4) { samples.min(r.below(100_000)) } else { 0 },
				freq: r.below(4) as u8,
				bands: r.range(1, 32) as u8,
				channels: r.range(1, 16) as u8,
				ms: r.chance(1, 2),
				frames: r.below(8) as u8,
				gain: [r.u64() as u16, r.u64() as u16, r.u64() as u16, r.u64() as u16],
				profile: r.below(128) as u8,
				pns: r.chance(1, 2),
				encoder: [r.u64() as u8, r.u64() as u8, r.u64() as u8],
			}
		},
		Fmt::Mp3 => {
			let layer = *r.pick(&[3u8, 3, 3, 2, 1]);
			let vbr = if layer == 3 { *r.pick(&[0, 0, 1, 2, 3]) } else { 0 };
			Spec::Mpeg {
				version: *r.pick(&[1, 1, 2, 25]),
				layer,
				bitrate: r.range(1, 14) as u8,
				rate: r.below(3) as u8,
				mode: r.below(4) as u8,
				mode_ext: r.below(4) as u8,
				copyright: r.chance(1, 2),
				original: r.chance(1, 2),
				emphasis: *r.pick(&[0, 0, 0, 1, 3]),
				crc: r.chance(1, 4),
				frames: r.range(4, 40) as u32,
				vbr,
				vbr_frames: r.size(10_000_000, &[1, 2, 1000]).max(1) as u32,
				vbr_size: r.size(1 << 31, &[1, 1000]).max(1) as u32,
			}
		},
		_ => Spec::Adts {
			mpeg2: r.chance(1, 2),
			profile: r.below(4) as u8,
			rate: r.below(13) as u8,
			channels: r.range(1, 7) as u8,
			original: r.chance(1, 2),
			home: r.chance(1, 2),
			crc: r.chance(1, 3),
			len: r.range(60, 700) as u16,
			jitter: if r.chance(1, 2) { 0 } else { r.range(1, 50) as u16 },
			frames: r.range(3, 60) as u32,
		},
	};
	let mut spec = spec;
	if !spec.valid()
		&& let Spec::Mpeg { vbr, .. } = &mut spec
	{
		// the first frame is too short
		*vbr = 0;
	}
	let Base::Synth { seed, units, mut feats, .. } = gen_base(r, fmt) else {
		unreachable!()
	};
	feats.retain(|f| {
		!matches!(
			f,
			Feat::SecondStream | Feat::Chained | Feat::Moof { .. } | Feat::TwoTracks | Feat::Literal { .. } | Feat::Trailing { .. } | Feat::Xing
		)
	});
	let junky = feats.iter().any(|f| matches!(f, Feat::Junk { .. } | Feat::LeadApe { .. }));
	let sv46 = matches!(spec, Spec::Sv4to6 { .. });
	Audio {
		spec,
		seed,
		units: units.min(300),
		feats,
		guess: !junky && !sv46 && r.chance(1, 3),
		mode: *r.pick(&[0, 1, 1, 2]),
		noise: r.chance(1, 2).then(|| gen_noise(r)),
	}
}

/// A string of bits, most significant first
#[derive(Default)]
struct Bits(Vec<bool>);

impl Bits {
	fn put(&mut self, v: u64, n: u32) -> &mut Self {
		for i in (0..n).rev() {
			self.0.push(v >> i & 1 == 1);
		}
		self
	}
	fn bytes(&self) -> Vec<u8> {
		self.0
			.chunks(8)
			.map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | u8::from(*b) << (7 - i)))
			.collect()
	}
}

fn descriptor(tag: u8, body: &[u8], long: bool) -> Vec<u8> {
	let mut o = vec![tag];
	if long {
		o.extend_from_slice(&[0x80, 0x80, 0x80 | (body.len() >> 7) as u8]);
	}
	o.push(body.len() as u8 & 0x7F);
	o.extend_from_slice(body);
	o
}

fn stream_info(rate: u32, channels: u8, bits: u8, samples: u64, md5: u64) -> Vec<u8> {
	let mut b = Bits::default();
	b.put(4096, 16).put(4096, 16).put(14, 24).put(1024, 24);
	b.put(u64::from(rate), 20).put(u64::from(channels - 1), 3).put(u64::from(bits - 1), 5).put(samples, 36);
	b.put(md5, 64).put(!md5, 64);
	b.bytes()
}

fn extended(rate: u32) -> [u8; 10] {
	let mut o = [0; 10];
	if rate > 0 {
		let lz = rate.leading_zeros();
		let e = 16383 + 31 - lz;
		o[..2].copy_from_slice(&(e as u16).to_be_bytes());
		o[2..6].copy_from_slice(&(rate << lz).to_be_bytes());
	}
	o
}

/// Variable length number of Musepack 8
fn vlq(v: u64) -> Vec<u8> {
	let mut o = vec![v as u8 & 0x7F];
	let mut v = v >> 7;
	while v > 0 {
		o.push(0x80 | v as u8 & 0x7F);
		v >>= 7;
	}
	o.reverse();
	o
}

fn mpc_packet(o: &mut Vec<u8>, key: &[u8; 2], body: &[u8]) {
	let mut n = 1;
	loop {
		let l = vlq(body.len() as u64 + 2 + n);
		if l.len() as u64 == n {
			o.extend_from_slice(key);
			o.extend_from_slice(&l);
			o.extend_from_slice(body);
			return;
		}
		n = l.len() as u64;
	}
}

impl Spec {
	fn fmt(&self) -> Fmt {
		match self {
			Spec::Wav { .. } => Fmt::Wav,
			Spec::Aiff { .. } => Fmt::Aiff,
			Spec::Flac { .. } => Fmt::Flac,
			Spec::Vorbis { .. } => Fmt::OggVorbis,
			Spec::Opus { .. } => Fmt::OggOpus,
			Spec::Speex { .. } => Fmt::OggSpeex,
			Spec::Mp4 { .. } => Fmt::Mp4,
			Spec::Wv { .. } => Fmt::Wv,
			Spec::Mac { .. } => Fmt::Ape,
			Spec::Sv4to6 { .. } | Spec::Sv7 { .. } => Fmt::Mpc7,
			Spec::Sv8 { .. } => Fmt::Mpc8,
			Spec::Mpeg { .. } => Fmt::Mp3,
			Spec::Adts { .. } => Fmt::Aac,
		}
	}

	/// Within what the format can express
	fn valid(&self) -> bool {
		match self {
			Spec::Wav { channels, bits, frames, rate, .. } => *channels > 0 && bits % 8 == 0 && *frames > 0 && *frames < 1 << 20 && *rate > 0,
			Spec::Aiff { channels, bits, frames, rate, name, .. } => {
				*channels > 0 && *bits > 0 && *frames > 0 && *frames < 1 << 20 && *rate > 0 && name.len() < 200
			},
			Spec::Flac { rate, channels, bits, samples, .. } => {
				(1..=655_350).contains(rate) && (1..=8).contains(channels) && (4..=32).contains(bits) && *samples < 1 << 36
			},
			Spec::Vorbis { rate, channels, .. } => *rate > 0 && *channels > 0,
			Spec::Opus { family, channels, .. } => match family {
				0 => (1..=2).contains(channels),
				1 => (1..=8).contains(channels),
				_ => *channels > 0,
			},
			Spec::Speex { rate, channels, .. } => *rate > 0 && (1..=2).contains(channels),
			Spec::Mp4 { timescale, v1, duration, version, codec, .. } => {
				*timescale > 0
					&& *version < 3
					&& (*v1 || *duration < 1 << 32)
					&& match codec {
						Mp4Audio::Esds { asc: Some(a), .. } => a.object != 31 && a.object < 95 && a.channels < 16 && a.explicit < 1 << 24,
						Mp4Audio::Flac { bits, channels, rate } => *bits > 0 && *channels > 0 && *rate < 1 << 20,
						Mp4Audio::Alac { .. } => *version < 2,
						_ => true,
					}
			},
			Spec::Wv { rate, channels, bytes, shift, samples, blocks, version, .. } => {
				(1..1 << 24).contains(rate)
					&& (1..=4096).contains(channels)
					&& (1..=4).contains(bytes)
					&& *shift < bytes * 8
					&& (1..u32::MAX).contains(samples)
					&& *blocks > 0
					&& (0x402..=0x410).contains(version)
			},
			Spec::Mac { version, bits, channels, frames, last, rate, descriptor, .. } => {
				*version >= 3000 && [8, 16, 24].contains(bits) && (1..=32).contains(channels) && *frames > 0 && *last > 0 && *rate > 0 && (52..4096).contains(descriptor)
			},
			Spec::Sv4to6 { version, frames, .. } => (4..=6).contains(version) && *frames > 1 && (*version > 4 || *frames < 65536),
			Spec::Sv7 { frames, gapless, .. } => *frames > 1 && gapless.is_none_or(|g| (1..=1152).contains(&g)),
			Spec::Sv8 { samples, silence, freq, bands, channels, .. } => {
				silence <= samples && *freq < 4 && (1..=32).contains(bands) && (1..=16).contains(channels) && *samples < 1 << 62
			},
			Spec::Mpeg { version, layer, bitrate, rate, mode, frames, vbr, vbr_frames, vbr_size, .. } => {
				[1, 2, 25].contains(version)
					&& (1..=3).contains(layer)
					&& (1..=14).contains(bitrate)
					&& *rate < 3
					&& *mode < 4
					&& (4..400).contains(frames)
					&& (*vbr == 0 || *layer == 3 && self.first_frame() >= 36 + 40)
					&& *vbr_frames > 0
					&& *vbr_size > 0
			},
			Spec::Adts { profile, rate, channels, len, jitter, frames, .. } => {
				*profile < 4 && *rate < 13 && *channels < 8 && *len >= 40 && *len + *jitter < 8000 && (3..400).contains(frames)
			},
		}
	}

	/// Length of the first MPEG frame
	fn first_frame(&self) -> u32 {
		let (br, sr, spf) = self.mpeg();
		if matches!(self, Spec::Mpeg { layer: 1, .. }) { 12 * br * 1000 / sr * 4 } else { spf / 8 * br * 1000 / sr }
	}

	fn parts(&self, r: &mut Rng) -> AudioParts {
		let mut p = AudioParts::default();
		match self {
			Spec::Wav { tag, channels, rate, bits, frames, ext, fact } => {
				let mut f = Vec::new();
				let block = if *bits > 0 { channels * (bits / 8) } else { 1 };
				f.extend_from_slice(&if ext.is_some() { 0xFFFEu16 } else { *tag }.to_le_bytes());
				f.extend_from_slice(&channels.to_le_bytes());
				f.extend_from_slice(&rate.to_le_bytes());
				f.extend_from_slice(&self.wav_byte_rate().to_le_bytes());
				f.extend_from_slice(&block.to_le_bytes());
				f.extend_from_slice(&bits.to_le_bytes());
				if let Some((valid, mask)) = ext {
					f.extend_from_slice(&22u16.to_le_bytes());
					f.extend_from_slice(&valid.to_le_bytes());
					f.extend_from_slice(&mask.to_le_bytes());
					f.extend_from_slice(&tag.to_le_bytes());
					f.extend_from_slice(&[0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xAA, 0, 0x38, 0x9B, 0x71]);
				} else if *tag != 1 {
					f.extend_from_slice(&0u16.to_le_bytes());
				}
				p.head = Some(f);
				// in PCM files some programs count the samples of all channels
				let all = *tag == 1 && r.chance(1, 3);
				p.fact = fact.then_some(if all { frames.saturating_mul(u32::from(*channels)) } else { *frames });
				let n = if *bits > 0 { *frames as usize * block as usize } else { (*frames as usize / 4).max(1) };
				p.body = Some(opaque(r, n));
			},
			Spec::Aiff { channels, rate, bits, frames, aifc, name } => {
				let mut c = channels.to_be_bytes().to_vec();
				c.extend_from_slice(&frames.to_be_bytes());
				c.extend_from_slice(&bits.to_be_bytes());
				c.extend_from_slice(&extended(*rate));
				if let Some(i) = aifc {
					let ty = AIFC.get(*i as usize).map_or(b"simX", |x| x.0);
					c.extend_from_slice(ty);
					c.push(name.len() as u8);
					c.extend_from_slice(name.as_bytes());
					if name.len() % 2 == 0 {
						c.push(0);
					}
					p.aifc = true;
				}
				p.head = Some(c);
				let n = *frames as usize * *channels as usize;
				p.body = Some(opaque(r, n.min(20_000)));
			},
			Spec::Flac { rate, channels, bits, samples, md5 } => p.head = Some(stream_info(*rate, *channels, *bits, *samples, *md5)),
			Spec::Vorbis { rate, channels, bitrates, samples } => {
				let mut h = b"\x01vorbis".to_vec();
				h.extend_from_slice(&0u32.to_le_bytes());
				h.push(*channels);
				h.extend_from_slice(&rate.to_le_bytes());
				for b in bitrates {
					h.extend_from_slice(&b.to_le_bytes());
				}
				h.extend_from_slice(&[0xB8, 1]);
				p.head = Some(h);
				p.packets = packets(r, *samples);
			},
			Spec::Opus { rate, channels, family, pre_skip, gain, samples } => {
				let mut h = b"OpusHead\x01".to_vec();
				h.push(*channels);
				h.extend_from_slice(&pre_skip.to_le_bytes());
				h.extend_from_slice(&rate.to_le_bytes());
				h.extend_from_slice(&gain.to_le_bytes());
				h.push(*family);
				if *family > 0 {
					h.extend_from_slice(&[*channels, 0]);
					h.extend((0..*channels).collect::<Vec<u8>>());
				}
				p.head = Some(h);
				p.packets = packets(r, *samples + u64::from(*pre_skip));
			},
			Spec::Speex { rate, mode, channels, bitrate, vbr, samples } => {
				let mut h = b"Speex   1.2.0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec();
				for v in [1u32, 80, *rate, *mode, 4, *channels, *bitrate as u32, 320, u32::from(*vbr), 1, 0, 0, 0] {
					h.extend_from_slice(&v.to_le_bytes());
				}
				p.head = Some(h);
				p.packets = packets(r, *samples);
			},
			Spec::Mp4 { v1, timescale, duration, version, channels, rate, codec, before } => {
				let mut m = if *v1 {
					let mut b = be(&[1 << 24, 0, 77, 0, 78, *timescale]);
					b.extend_from_slice(&duration.to_be_bytes());
					b
				} else {
					be(&[0, 77, 78, *timescale, *duration as u32])
				};
				m.extend_from_slice(&[0x55, 0xC4, 0, 0]);
				p.mdhd = Some(m);
				let entry = |id: &[u8; 4], version: u8, inner: &[u8]| {
					let mut e = vec![0; 6];
					e.extend_from_slice(&1u16.to_be_bytes());
					e.extend_from_slice(&u16::from(version).to_be_bytes());
					e.extend_from_slice(&[0; 6]);
					if version == 2 {
						// fixed values, the real ones follow
						for v in [3u16, 16, 0xFFFE, 0] {
							e.extend_from_slice(&v.to_be_bytes());
						}
						e.extend_from_slice(&0x10000u32.to_be_bytes());
						e.extend_from_slice(&72u32.to_be_bytes());
						e.extend_from_slice(&f64::from(*rate).to_bits().to_be_bytes());
						e.extend_from_slice(&be(&[u32::from(*channels), 0x7F00_0000, 16, 12, 4, 1]));
					} else {
						for v in [*channels, 16, 0, 0] {
							e.extend_from_slice(&v.to_be_bytes());
						}
						e.extend_from_slice(&(rate << 16).to_be_bytes());
						if version == 1 {
							e.extend_from_slice(&be(&[1024, 2, 4, 2]));
						}
					}
					e.extend_from_slice(inner);
					atom(id, &e)
				};
				let mut entries = Vec::new();
				for _ in 0..*before {
					entries.push(entry(b"zzzz", 0, &atom(b"priv", &opaque(r, 12))));
				}
				entries.push(match codec {
					Mp4Audio::Bare => entry(b"mp4a", *version, &[]),
					Mp4Audio::Drms => entry(b"drms", *version, &atom(b"sinf", &opaque(r, 20))),
					Mp4Audio::Unknown => entry(b"twos", *version, &[]),
					Mp4Audio::Alac { bits, channels, average, rate } => {
						let mut a = be(&[4096]);
						a.extend_from_slice(&[0, *bits, 40, 10, 14, *channels, 0, 255]);
						a.extend_from_slice(&be(&[8192, *average, *rate]));
						entry(b"alac", *version, &full(b"alac", 0, &a))
					},
					Mp4Audio::Flac { bits, channels, rate } => {
						let s = stream_info(*rate, *channels, *bits, 0, r.u64());
						let mut b = vec![0x80, 0, 0, s.len() as u8];
						b.extend_from_slice(&s);
						entry(b"fLaC", *version, &full(b"dfLa", 0, &b))
					},
					Mp4Audio::Esds { indication, average, asc, long } => {
						let mut d = vec![*indication, 0x15, 0, 0, 0];
						d.extend_from_slice(&be(&[average + 10, *average]));
						if let Some(a) = asc {
							let mut b = Bits::default();
							if a.object < 31 {
								b.put(u64::from(a.object), 5);
							} else {
								b.put(31, 5).put(u64::from(a.object) - 32, 6);
							}
							b.put(u64::from(a.index), 4);
							if a.index == 15 {
								b.put(u64::from(a.explicit), 24);
							}
							b.put(u64::from(a.channels), 4).put(0, 3).put(r.below(256), 8);
							d.extend_from_slice(&descriptor(5, &b.bytes(), *long));
						}
						let mut es = vec![0, 1, 0];
						es.extend_from_slice(&descriptor(4, &d, *long));
						es.extend_from_slice(&descriptor(6, &[2], *long));
						entry(b"mp4a", *version, &full(b"esds", 0, &descriptor(3, &es, *long)))
					},
				});
				let mut sd = be(&[0, entries.len() as u32]);
				for e in entries {
					sd.extend_from_slice(&e);
				}
				p.head = Some(sd);
			},
			Spec::Wv { version, rate, channels, mask, bytes, shift, hybrid, dsd, samples, blocks, empty, noise } => {
				let mut o = Vec::new();
				let index = WV_RATES.iter().position(|x| x == rate).unwrap_or(15) as u32;
				let pairs = channels.div_ceil(2);
				// streams of at most two channels, the first and the last marked
				let per = if *channels <= 2 { 1 } else { pairs.min(6) };
				let mut block = |samples_in: u32, first: bool, last: bool, at: u32, mono: bool, o: &mut Vec<u8>| {
					let mut b = Vec::new();
					let mut sub = |id: u8, d: &[u8]| {
						let odd = d.len() % 2 == 1;
						let words = d.len().div_ceil(2);
						let mut id = id;
						if odd {
							id |= 0x40;
						}
						if words > 255 {
							b.push(id | 0x80);
							b.extend_from_slice(&(words as u32).to_le_bytes()[..3]);
						} else {
							b.push(id);
							b.push(words as u8);
						}
						b.extend_from_slice(d);
						if odd {
							b.push(0);
						}
					};
					for i in 0..*noise {
						let n = match i {
							0 => 7,
							1 => 0,
							3 => 131_060 + r.usize(3000),
							_ => 600 + r.usize(9),
						};
						sub(0x22 + i, &opaque(r, n));
					}
					if index == 15 {
						let mut v = rate.to_le_bytes()[..3].to_vec();
						v.truncate(3);
						sub(0x27, &v);
					}
					if *channels > 2 || (*channels <= 2 && *mask != 0 && *mask != if *channels == 1 { 4 } else { 3 }) {
						let m = mask.to_le_bytes();
						let used = 4 - mask.leading_zeros() as usize / 8;
						let c = channels - 1;
						let d = if *channels > 255 || *mask >= 1 << 24 && *noise > 1 {
							let mut d = vec![c as u8, (per - 1) as u8, ((c >> 8) as u8 & 0xF) | ((per - 1) >> 8 << 4) as u8];
							d.extend_from_slice(&m[..if *mask >= 1 << 24 { 4 } else { 3 }]);
							d
						} else {
							let mut d = vec![*channels as u8];
							d.extend_from_slice(&m[..used]);
							d
						};
						sub(0x0D, &d);
					}
					if let Some(m) = dsd {
						let mut d = vec![*m];
						d.extend_from_slice(&opaque(r, 9));
						sub(0x0E, &d);
					}
					sub(0x0A, &opaque(r, 60));
					o.extend_from_slice(b"wvpk");
					o.extend_from_slice(&(24 + b.len() as u32).to_le_bytes());
					o.extend_from_slice(&version.to_le_bytes());
					o.extend_from_slice(&[0, 0]);
					o.extend_from_slice(&samples.to_le_bytes());
					o.extend_from_slice(&at.to_le_bytes());
					o.extend_from_slice(&samples_in.to_le_bytes());
					let mut f = u32::from(*bytes - 1) | u32::from(*shift) << 13 | index << 23;
					if mono {
						f |= 4;
					}
					if *hybrid {
						f |= 8;
					}
					if first {
						f |= 1 << 11;
					}
					if last {
						f |= 1 << 12;
					}
					if dsd.is_some() {
						f |= 1 << 31;
					}
					o.extend_from_slice(&f.to_le_bytes());
					o.extend_from_slice(&[0x12, 0x34, 0x56, 0x78]);
					o.extend_from_slice(&b);
				};
				for _ in 0..*empty {
					block(0, true, true, 0, *channels == 1, &mut o);
				}
				let each = (*samples / u32::from(*blocks)).max(1);
				for i in 0..*blocks {
					for s in 0..per {
						block(each, s == 0, s + 1 == per, u32::from(i).wrapping_mul(each), *channels == 1, &mut o);
					}
				}
				p.body = Some(o);
			},
			Spec::Mac { version, bits, channels, rate, per_frame, last, frames, descriptor, level } => {
				let mut o = b"MAC ".to_vec();
				o.extend_from_slice(&version.to_le_bytes());
				let flags: u16 = match bits {
					8 => 1,
					24 => 8,
					_ => 0,
				} | 2;
				if *version >= 3980 {
					o.extend_from_slice(&[0, 0]);
					for v in [*descriptor, 24, 0, 44, 4096, 0, 0] {
						o.extend_from_slice(&v.to_le_bytes());
					}
					o.extend_from_slice(&[0x11; 16]);
					o.extend_from_slice(&opaque(r, *descriptor as usize - 52));
					o.extend_from_slice(&level.to_le_bytes());
					o.extend_from_slice(&0u16.to_le_bytes());
					for v in [*per_frame, *last, *frames] {
						o.extend_from_slice(&v.to_le_bytes());
					}
					o.extend_from_slice(&bits.to_le_bytes());
					o.extend_from_slice(&channels.to_le_bytes());
					o.extend_from_slice(&rate.to_le_bytes());
				} else {
					o.extend_from_slice(&level.to_le_bytes());
					o.extend_from_slice(&flags.to_le_bytes());
					o.extend_from_slice(&channels.to_le_bytes());
					o.extend_from_slice(&rate.to_le_bytes());
					for v in [44, 0, *frames, *last] {
						o.extend_from_slice(&v.to_le_bytes());
					}
				}
				o.extend_from_slice(&opaque(r, 900));
				p.body = Some(o);
			},
			Spec::Sv4to6 { version, frames, ms, max_band } => {
				let w = u32::from(*ms) << 21 | u32::from(*version) << 11 | u32::from(*max_band) << 6 | 1;
				let mut o = w.to_le_bytes().to_vec();
				o.extend_from_slice(&if *version == 4 { frames << 16 | 0x1234 } else { *frames }.to_le_bytes());
				o.extend_from_slice(&opaque(r, 600 + 300 * (*frames as usize).min(60)));
				p.body = Some(o);
			},
			Spec::Sv7 { frames, is, ms, max_band, profile, link, freq, level, gapless, fast } => {
				// 32 bit words, little endian, filled from the most significant bit
				let mut b = Bits::default();
				b.put(u64::from(*frames), 32);
				b.put(u64::from(*is), 1).put(u64::from(*ms), 1).put(u64::from(*max_band), 6).put(u64::from(*profile), 4);
				b.put(u64::from(*link), 2).put(u64::from(*freq), 2).put(u64::from(*level), 16);
				b.put(0, 32).put(0, 32);
				b.put(u64::from(gapless.is_some()), 1).put(u64::from(gapless.unwrap_or(0)), 11).put(u64::from(*fast), 1).put(0, 19);
				b.put(0x73, 8).put(0, 24);
				let mut o = b"MP+\x07".to_vec();
				for w in b.bytes().chunks(4) {
					o.extend(w.iter().rev());
				}
				o.extend_from_slice(&opaque(r, 700));
				p.body = Some(o);
			},
			Spec::Sv8 { samples, silence, freq, bands, channels, ms, frames, gain, profile, pns, encoder } => {
				let mut o = b"MPCK".to_vec();
				let mut h = vec![0xDE, 0xAD, 0xBE, 0xEF, 8];
				h.extend_from_slice(&vlq(*samples));
				h.extend_from_slice(&vlq(*silence));
				let mut b = Bits::default();
				b.put(u64::from(*freq), 3).put(u64::from(*bands - 1), 5).put(u64::from(*channels - 1), 4);
				b.put(u64::from(*ms), 1).put(u64::from(*frames), 3);
				h.extend_from_slice(&b.bytes());
				mpc_packet(&mut o, b"SH", &h);
				let mut g = vec![1];
				for x in gain {
					g.extend_from_slice(&x.to_be_bytes());
				}
				mpc_packet(&mut o, b"RG", &g);
				let mut e = vec![profile << 1 | u8::from(*pns)];
				e.extend_from_slice(encoder);
				mpc_packet(&mut o, b"EI", &e);
				let n = r.usize(4);
				for _ in 0..=n {
					let l = [10, 120, 130, 1000, 16400][r.usize(5)];
					mpc_packet(&mut o, b"AP", &opaque(r, l));
				}
				mpc_packet(&mut o, b"SE", &[]);
				p.body = Some(o);
			},
			Spec::Mpeg { version, layer, mode, mode_ext, copyright, original, emphasis, crc, frames, vbr, vbr_frames, vbr_size, bitrate, rate } => {
				let (br, sr, spf) = self.mpeg();
				let mut o = Vec::new();
				for i in 0..*frames {
					let pad = vbr == &0 && (i % 3 == 1);
					let pad = u32::from(pad);
					let len = match layer {
						1 => (12 * br * 1000 / sr + pad) * 4,
						_ => spf / 8 * br * 1000 / sr + pad,
					} as usize;
					let mut b = Bits::default();
					let v = match version {
						1 => 3,
						2 => 2,
						_ => 0,
					};
					b.put(0x7FF, 11).put(v, 2).put(4 - u64::from(*layer), 2).put(u64::from(!crc), 1);
					b.put(u64::from(*bitrate), 4).put(u64::from(*rate), 2).put(u64::from(pad), 1).put(0, 1);
					b.put(u64::from(*mode), 2).put(u64::from(if *mode == 1 { *mode_ext } else { 0 }), 2);
					b.put(u64::from(*copyright), 1).put(u64::from(*original), 1).put(u64::from(*emphasis), 2);
					let mut f = b.bytes();
					f.extend_from_slice(&opaque(r, len.saturating_sub(4)));
					if i == 0 && *vbr > 0 {
						let mono = *mode == 3;
						let side = match (*version == 1, mono) {
							(true, false) => 32,
							(true, true) | (false, false) => 17,
							(false, true) => 9,
						};
						let at = if *vbr == 3 { 36 } else { 4 + side };
						let mut x: Vec<u8> = Vec::new();
						if *vbr == 3 {
							x.extend_from_slice(b"VBRI");
							x.extend_from_slice(&[0, 1, 0, 0, 0, 75]);
							x.extend_from_slice(&be(&[*vbr_size, *vbr_frames]));
							x.extend_from_slice(&[0; 14]);
						} else {
							x.extend_from_slice(if *vbr == 1 { b"Xing" } else { b"Info" });
							x.extend_from_slice(&be(&[3, *vbr_frames, *vbr_size]));
						}
						if f.len() >= at + x.len() {
							f[4..at].fill(0);
							f[at..at + x.len()].copy_from_slice(&x);
						}
					}
					o.extend_from_slice(&f);
				}
				p.body = Some(o);
			},
			Spec::Adts { mpeg2, profile, rate, channels, original, home, crc, len, jitter, frames } => {
				let mut o = Vec::new();
				for _ in 0..*frames {
					let n = *len as usize + r.usize(*jitter as usize + 1);
					let mut b = Bits::default();
					b.put(0xFFF, 12).put(u64::from(*mpeg2), 1).put(0, 2).put(u64::from(!crc), 1);
					b.put(u64::from(*profile), 2).put(u64::from(*rate), 4).put(0, 1).put(u64::from(*channels), 3);
					b.put(u64::from(*original), 1).put(u64::from(*home), 1).put(0, 2).put(n as u64, 13).put(0x7FF, 11).put(0, 2);
					let mut f = b.bytes();
					f.extend_from_slice(&opaque(r, n - 7));
					o.extend_from_slice(&f);
				}
				p.body = Some(o);
			},
		}
		p
	}

	fn wav_byte_rate(&self) -> u32 {
		match self {
			Spec::Wav { bits: 0, rate, .. } => rate / 4,
			Spec::Wav { channels, rate, bits, .. } => rate * u32::from(*channels) * u32::from(bits / 8),
			_ => 0,
		}
	}

	/// kbit/s, Hz, samples per frame
	fn mpeg(&self) -> (u32, u32, u32) {
		let Spec::Mpeg { version, layer, bitrate, rate, .. } = self else {
			return (0, 0, 0);
		};
		let t = match (version, layer) {
			(1, 1) => L1V1,
			(1, 2) => L2V1,
			(1, _) => L3V1,
			(_, 1) => L1V2,
			_ => L23V2,
		};
		let sr = [44100, 48000, 32000][*rate as usize] >> match version {
			1 => 0,
			2 => 1,
			_ => 2,
		};
		let spf = match (version, layer) {
			(_, 1) => 384,
			(_, 2) | (1, _) => 1152,
			_ => 576,
		};
		(t[*bitrate as usize - 1], sr, spf)
	}
}

fn packets(r: &mut Rng, last: u64) -> Vec<(Vec<u8>, u64)> {
	let n = r.range(1, 12);
	(1..=n)
		.map(|i| {
			let l = 10 + r.usize(300);
			let gp = if i == n { last } else { (u128::from(last) * u128::from(i) / u128::from(n)) as u64 };
			(opaque(r, l), gp)
		})
		.collect()
}

#[derive(Default, Debug)]
struct Want {
	rate: Option<u32>,
	channels: Option<u32>,
	/// `Some(None)`: the format has none
	depth: Option<Option<u32>>,
	mask: Option<Option<u32>>,
	/// milliseconds, and by how much the reported one may be off
	dur: Option<(f64, f64)>,
	/// kbit/s
	audio: Option<(f64, f64)>,
	/// what SV4 to SV6 bitrates come out as in frames of 1152 samples instead of thousands of bits
	in_frames: Option<(f64, f64)>,
	/// what AAC durations come out as if the headers of the leading ID3v2 tags count as audio
	with_headers: Option<f64>,
	/// the tags after the audio do not have to count
	audio_only: Option<f64>,
	no_overall: bool,
	extra: Vec<(&'static str, String)>,
}

fn want(s: &Spec, stream: usize, file: &[u8], junk: bool) -> Want {
	let mut w = Want::default();
	let file_len = file.len() as f64;
	let ms = |n: f64, rate: u32| n * 1000. / f64::from(rate);
	// from the bytes of the audio data
	let avg = |bytes: f64, dur: f64, slack: f64| -> Option<(f64, f64)> {
		(dur >= 2.0).then(|| (bytes * 8. / (dur + 1.0) - 1.0, (bytes + slack) * 8. / (dur - 1.0) + 1.0))
	};
	let near = |kbps: f64| Some((kbps - 1.0, kbps + 1.0));
	match s {
		Spec::Wav { tag, channels, rate, bits, frames, ext, .. } => {
			w.rate = Some(*rate);
			w.channels = Some(u32::from(*channels));
			let block = u32::from(*channels) * u32::from(bits / 8);
			w.depth = Some(Some(match ext {
				Some((v, _)) => u32::from(*v),
				None if *bits == 0 => 8 / u32::from(*channels),
				None => u32::from(*bits),
			}));
			if *bits == 0 {
				// compressed: what the field means is up to the codec
				w.depth = None;
			}
			w.mask = Some(ext.map(|e| e.1));
			w.dur = Some((ms(f64::from(*frames), *rate), 1.0));
			if s.wav_byte_rate() > 0 {
				w.audio = near(f64::from(s.wav_byte_rate()) * 8. / 1000.);
			}
			let _ = block;
			w.extra.push(("format", match tag {
				1 => "PCM".into(),
				3 => "IEEE_FLOAT".into(),
				t => format!("Other({t})"),
			}));
		},
		Spec::Aiff { channels, rate, bits, frames, aifc, name } => {
			w.rate = Some(*rate);
			w.channels = Some(u32::from(*channels));
			w.depth = Some(Some(u32::from(*bits)));
			let d = ms(f64::from(*frames), *rate);
			w.dur = Some((d, 1.0));
			w.audio = avg(stream as f64, d, 16.0);
			w.extra.push(("compression", match aifc {
				None => "None".into(),
				Some(i) => match AIFC.get(*i as usize) {
					Some(x) => format!("Some({})", x.1),
					None => format!("Some(Other {{ compression_type: [115, 105, 109, 88], compression_name: {name:?} }})"),
				},
			}));
		},
		Spec::Flac { rate, channels, bits, samples, md5 } => {
			w.rate = Some(*rate);
			w.channels = Some(u32::from(*channels));
			w.depth = Some(Some(u32::from(*bits)));
			w.dur = Some((ms(*samples as f64, *rate), 1.0));
			w.extra.push(("signature", format!("{}", u128::from(*md5) << 64 | u128::from(!*md5))));
			// the frames: 44 bytes each
			w.audio = avg(stream as f64, ms(*samples as f64, *rate), 0.0);
		},
		Spec::Vorbis { rate, channels, bitrates, samples } => {
			w.rate = Some(*rate);
			w.channels = Some(u32::from(*channels));
			w.depth = Some(None);
			w.dur = Some((ms(*samples as f64, *rate), 1.0));
			if bitrates[1] > 0 {
				w.audio = near(f64::from(bitrates[1]) / 1000.);
			}
			w.extra.push(("bitrates", format!("{bitrates:?}")));
			w.extra.push(("version", "0".into()));
		},
		Spec::Opus { rate, channels, gain, samples, family, .. } => {
			w.rate = Some(*rate);
			w.channels = Some(u32::from(*channels));
			w.depth = Some(None);
			if *family == 255 {
				w.mask = None;
			} else {
				const FL: u32 = 1;
				const FR: u32 = 2;
				const FC: u32 = 4;
				const LFE: u32 = 8;
				const BL: u32 = 0x10;
				const BR: u32 = 0x20;
				const BC: u32 = 0x100;
				const SL: u32 = 0x200;
				const SR: u32 = 0x400;
				w.mask = Some(Some(match channels {
					1 => FC,
					2 => FL | FR,
					3 => FL | FR | FC,
					4 => FL | FR | BL | BR,
					5 => FL | FR | FC | BL | BR,
					6 => FL | FR | FC | BL | BR | LFE,
					7 => FL | FR | FC | SL | SR | BC | LFE,
					_ => FL | FR | FC | SL | SR | BL | BR | LFE,
				}));
			}
			w.dur = Some((ms(*samples as f64, 48000), 1.0));
			w.extra.push(("gain", format!("{}", f32::from(*gain) / 256.)));
			w.extra.push(("version", "1".into()));
		},
		Spec::Speex { rate, mode, channels, bitrate, vbr, samples } => {
			w.rate = Some(*rate);
			w.channels = Some(*channels);
			w.depth = Some(None);
			w.dur = Some((ms(*samples as f64, *rate), 1.0));
			if *bitrate > 0 {
				w.audio = near(f64::from(*bitrate) / 1000.);
			}
			w.extra.push(("mode", format!("{mode}")));
			w.extra.push(("vbr", format!("{vbr}")));
			w.extra.push(("nominal", format!("{bitrate}")));
			w.extra.push(("version", "1".into()));
		},
		Spec::Mp4 { timescale, duration, channels, rate, codec, .. } => {
			w.rate = Some(*rate);
			w.channels = Some(u32::from(*channels));
			w.depth = Some(None);
			let d = ms(*duration as f64, *timescale);
			w.dur = Some((d, 1.0 + d * 1e-12));
			let (mut c, mut drm, mut aot) = ("None", false, "None".to_string());
			match codec {
				Mp4Audio::Bare => c = "Some(AAC)",
				Mp4Audio::Drms => drm = true,
				Mp4Audio::Unknown => {},
				Mp4Audio::Alac { bits, channels, rate, .. } => {
					c = "Some(ALAC)";
					w.depth = Some(Some(u32::from(*bits)));
					w.channels = Some(u32::from(*channels));
					w.rate = Some(*rate);
				},
				Mp4Audio::Flac { bits, channels, rate } => {
					c = "Some(FLAC)";
					w.depth = Some(Some(u32::from(*bits)));
					w.channels = Some(u32::from(*channels));
					w.rate = Some(*rate);
				},
				Mp4Audio::Esds { indication, asc, .. } => {
					c = if [0x69, 0x6B].contains(indication) { "Some(MP3)" } else { "Some(AAC)" };
					if let Some(a) = asc {
						w.rate = Some(if a.index == 15 { a.explicit } else { AAC_RATES[a.index as usize] });
						match a.channels {
							0 => {},
							7 => w.channels = Some(8),
							n => w.channels = Some(u32::from(n)),
						}
						aot = format!("{}", a.object);
					}
				},
			}
			w.extra.push(("codec", c.into()));
			w.extra.push(("drm", format!("{drm}")));
			w.extra.push(("object", aot));
			w.extra.push(("brand", "M4A ".into()));
			// `stts` says how long the samples are
			let mdat = mdat_len(file) as f64;
			if *duration > 0 {
				w.audio = avg(mdat, d, 16.0);
			}
		},
		Spec::Wv { version, rate, channels, mask, bytes, shift, hybrid, dsd, samples, empty, .. } => {
			w.rate = Some(match dsd {
				Some(m) => rate.wrapping_mul(1 << m),
				None => *rate,
			});
			w.channels = Some(u32::from(*channels));
			let _ = empty;
			w.depth = Some(Some(u32::from(bytes * 8 - shift)));
			w.mask = Some(match (channels, mask) {
				(1, 0) => Some(4),
				(2, 0) => Some(3),
				(_, 0) => None,
				(_, m) => Some(*m),
			});
			if *channels > 255 {
				// the format-independent count has eight bits
				w.channels = None;
			}
			let r = w.rate.unwrap_or(1);
			if *samples > 0 && r > 0 {
				let d = ms(f64::from(*samples), r);
				w.dur = Some((d, 1.0));
				w.audio = avg(stream as f64, d, 40.0);
			}
			w.extra.push(("channels", format!("{channels}")));
			w.extra.push(("version", format!("{version}")));
			w.extra.push(("lossless", format!("{}", !hybrid)));
		},
		Spec::Mac { version, bits, channels, rate, per_frame, last, frames, level, .. } => {
			w.rate = Some(*rate);
			w.channels = Some(u32::from(*channels));
			w.depth = Some(Some(u32::from(*bits)));
			let per = match version {
				3980.. => *per_frame,
				3950.. => 73728 * 4,
				3900.. => 73728,
				3800.. if *level >= 4000 => 73728,
				_ => 9216,
			};
			let d = ms(f64::from(per) * (f64::from(*frames) - 1.) + f64::from(*last), *rate);
			w.dur = Some((d, 1.0));
			w.audio = avg(stream as f64, d, 40.0);
			w.audio_only = Some(stream as f64 - 64.);
			w.extra.push(("version", format!("{version}")));
		},
		Spec::Sv4to6 { version, frames, ms: mss, max_band } => {
			w.rate = Some(44100);
			w.channels = Some(2);
			let frames = if *version < 6 { frames - 1 } else { *frames };
			let d = ms(f64::from(frames) * 1152., 44100);
			w.dur = Some((d, 1.0 + ms(1152., 44100)));
			if d > 500. {
				let k = stream as f64 * 8. / d;
				w.audio = Some((k * 0.9 - 1., k * 1.1 + 1.));
			}
			w.in_frames = w.audio.map(|(a, b)| (a * 1000. / 1152. - 1., b * 1000. / 1152. + 1.));
			w.extra.push(("version", format!("{version}")));
			w.extra.push(("ms", format!("{mss}")));
			w.extra.push(("max band", format!("{max_band}")));
			w.extra.push(("frames", format!("{frames}")));
			w.no_overall = true;
		},
		Spec::Sv7 { frames, is, ms: mss, max_band, profile, link, freq, level, gapless, fast } => {
			let rate = MPC_RATES[*freq as usize];
			w.rate = Some(rate);
			w.channels = Some(2);
			let last = f64::from(gapless.map_or(1152, u32::from));
			let d = ms((f64::from(*frames) - 1.) * 1152. + last, rate);
			w.dur = Some((d, 1.0 + ms(1152., rate)));
			if d > 500. {
				let k = stream as f64 * 8. / d;
				w.audio = Some((k * 0.9 - 1., k * 1.1 + 1.));
			}
			w.no_overall = true;
			w.extra.push(("frames", format!("{frames}")));
			w.extra.push(("is", format!("{is}")));
			w.extra.push(("ms", format!("{mss}")));
			w.extra.push(("max band", format!("{max_band}")));
			w.extra.push(("profile", SV7_PROFILES[*profile as usize].into()));
			w.extra.push(("link", SV7_LINKS[*link as usize].into()));
			w.extra.push(("level", format!("{level}")));
			w.extra.push(("gapless", format!("{}", gapless.is_some())));
			w.extra.push(("last", format!("{}", gapless.unwrap_or(0))));
			w.extra.push(("fast", format!("{fast}")));
		},
		Spec::Sv8 { samples, silence, freq, bands, channels, ms: mss, frames, gain, profile, pns, encoder } => {
			let rate = MPC_RATES[*freq as usize];
			w.rate = Some(rate);
			w.channels = Some(u32::from(*channels));
			let d = ms((samples - silence) as f64, rate);
			w.dur = Some((d, 1.0 + d * 1e-12));
			if d > 100. {
				let k = stream as f64 * 8. / d;
				w.audio = Some((k * 0.7 - 2., k * 1.1 + 1.));
			}
			w.no_overall = true;
			w.extra.push(("header", format!("{samples} {silence} {rate} {bands} {channels} {mss} {}", 1u32 << (2 * frames))));
			w.extra.push(("gain", format!("{gain:?}")));
			w.extra.push(("encoder", format!("{} {pns} {encoder:?}", f32::from(*profile) / 8.)));
		},
		Spec::Mpeg { version, layer, mode, mode_ext, copyright, original, emphasis, vbr, vbr_frames, vbr_size, .. } => {
			let (br, sr, spf) = s.mpeg();
			w.rate = Some(sr);
			w.channels = Some(if *mode == 3 { 1 } else { 2 });
			w.depth = Some(None);
			if *vbr > 0 {
				let d = f64::from(*vbr_frames) * f64::from(spf) * 1000. / f64::from(sr);
				w.dur = Some((d, 1.0));
				w.audio = avg(f64::from(*vbr_size), d, 0.);
			} else {
				let d = stream as f64 * 8. / f64::from(br);
				w.dur = Some((d, 1.0));
				w.audio = near(f64::from(br));
			}
			w.extra.push(("version", match version {
				1 => "V1",
				2 => "V2",
				_ => "V2_5",
			}
			.into()));
			w.extra.push(("layer", format!("Layer{layer}")));
			w.extra.push(("mode", ["Stereo", "JointStereo", "DualChannel", "SingleChannel"][*mode as usize].into()));
			w.extra.push(("mode ext", if *mode == 1 { format!("Some({mode_ext})") } else { "None".into() }));
			w.extra.push(("copyright", format!("{copyright}")));
			w.extra.push(("original", format!("{original}")));
			w.extra.push(("emphasis", ["None", "Some(MS5015)", "Some(Reserved)", "Some(CCIT_J17)"][*emphasis as usize].into()));
		},
		Spec::Adts { mpeg2, profile, rate, channels, original, frames, jitter, len, .. } => {
			let rate = AAC_RATES[*rate as usize];
			w.rate = Some(rate);
			w.channels = match channels {
				0 => None,
				7 => Some(8),
				n => Some(u32::from(*n)),
			};
			w.depth = Some(None);
			let d = ms(f64::from(*frames) * 1024., rate);
			let k = stream as f64 * 8. / d;
			let j = 0.5 * f64::from(*jitter) / f64::from(*len);
			w.audio = Some((k * (0.96 - j) - 4., k * (1.03 + j) + 4.));
			w.no_overall = true;
			// derived from the average bitrate
			if k > 20. && !junk {
				w.dur = Some((d, d * (0.05 + 4. / k) + 1.));
				let (mut tags, mut at) = (0, 0);
				while let Some(n) = crate::dissect::id3v2_len(&file[at..]) {
					tags += 1;
					at += n;
				}
				w.with_headers = Some(d + f64::from(tags) * 80. / k);
			}
			w.extra.push(("version", if *mpeg2 { "V2" } else { "V4" }.into()));
			w.extra.push(("object", ["AacMain", "AacLowComplexity", "AacScalableSampleRate", "AacLongTermPrediction"][*profile as usize].into()));
			w.extra.push(("original", format!("{original}")));
		},
	}
	let _ = file_len;
	w
}

fn mdat_len(d: &[u8]) -> usize {
	let mut p = 0;
	while p + 8 <= d.len() {
		let n = u32::from_be_bytes(d[p..p + 4].try_into().unwrap()) as usize;
		let (h, n) = match n {
			0 => (8, d.len() - p),
			1 if p + 16 <= d.len() => (16, u64::from_be_bytes(d[p + 8..p + 16].try_into().unwrap()) as usize),
			n => (8, n),
		};
		if &d[p + 4..p + 8] == b"mdat" {
			return n - h;
		}
		p += n.max(8);
	}
	0
}

fn extras(f: &AnyFile) -> Vec<(&'static str, String)> {
	let mut v: Vec<(&'static str, String)> = Vec::new();
	macro_rules! p {
		($n:literal, $e:expr) => {
			v.push(($n, format!("{}", $e)))
		};
	}
	macro_rules! d {
		($n:literal, $e:expr) => {
			v.push(($n, format!("{:?}", $e)))
		};
	}
	match f {
		AnyFile::Mp3(f) => {
			let x = f.properties();
			d!("version", x.version());
			d!("layer", x.layer());
			d!("mode", x.channel_mode());
			d!("mode ext", x.mode_extension());
			p!("copyright", x.is_copyright());
			p!("original", x.is_original());
			d!("emphasis", x.emphasis());
		},
		AnyFile::Aac(f) => {
			let x = f.properties();
			d!("version", x.version());
			d!("object", x.audio_object_type());
			p!("original", x.original());
		},
		AnyFile::Ape(f) => p!("version", f.properties().version()),
		AnyFile::Wv(f) => {
			let x = f.properties();
			p!("channels", x.channels());
			p!("version", x.version());
			p!("lossless", x.is_lossless());
		},
		AnyFile::Mpc(f) => match f.properties() {
			MpcProperties::Sv4to6(x) => {
				p!("version", x.stream_version());
				p!("ms", x.mid_side_stereo());
				p!("max band", x.max_band());
				p!("frames", x.frame_count());
			},
			MpcProperties::Sv7(x) => {
				p!("frames", x.frame_count());
				p!("is", x.intensity_stereo());
				p!("ms", x.mid_side_stereo());
				p!("max band", x.max_band());
				d!("profile", x.profile());
				d!("link", x.link());
				p!("level", x.max_level());
				p!("gapless", x.true_gapless());
				p!("last", x.last_frame_length());
				p!("fast", x.fast_seeking_safe());
			},
			MpcProperties::Sv8(x) => {
				let h = &x.stream_header;
				v.push((
					"header",
					format!(
						"{} {} {} {} {} {} {}",
						h.sample_count, h.beginning_silence, h.sample_rate, h.max_used_bands, h.channels, h.ms_used, h.audio_block_frames
					),
				));
				let g = &x.replay_gain;
				d!("gain", [g.title_gain, g.title_peak, g.album_gain, g.album_peak]);
				if let Some(e) = &x.encoder_info {
					v.push(("encoder", format!("{} {} {:?}", e.profile, e.pns_tool, [e.major, e.minor, e.build])));
				}
			},
		},
		AnyFile::Wav(f) => d!("format", f.properties().format()),
		AnyFile::Aiff(f) => d!("compression", f.properties().compression_type()),
		AnyFile::Flac(f) => p!("signature", f.properties().signature()),
		AnyFile::Vorbis(f) => {
			let x = f.properties();
			d!("bitrates", [x.bitrate_max(), x.bitrate_nominal(), x.bitrate_min()]);
			p!("version", x.version());
		},
		AnyFile::Opus(f) => {
			let x = f.properties();
			p!("gain", x.output_gain_db());
			p!("version", x.version());
		},
		AnyFile::Speex(f) => {
			let x = f.properties();
			p!("mode", x.mode());
			p!("vbr", x.vbr());
			p!("nominal", x.nominal_bitrate());
			p!("version", x.version());
		},
		AnyFile::Mp4(f) => {
			let x = f.properties();
			d!("codec", x.codec());
			p!("drm", x.is_drm_protected());
			v.push(("object", x.audio_object_type().map_or("None".into(), |o| format!("{}", o as u8))));
			p!("brand", x.ftyp());
		},
	}
	v
}

fn compare(w: &Want, p: &FileProperties, extra: Option<&[(&'static str, String)]>, len: f64) -> Option<(String, String)> {
	let ne = |n: &str, got: String, want: String| Some((format!("wrong {n}"), format!("{n} {got}, the stream says {want}")));
	if let Some(r) = w.rate
		&& p.sample_rate() != Some(r)
	{
		return ne("sample rate", format!("{:?}", p.sample_rate()), format!("{r}"));
	}
	if let Some(c) = w.channels
		&& p.channels().map(u32::from) != Some(c)
	{
		return ne("channels", format!("{:?}", p.channels()), format!("{c}"));
	}
	if let Some(b) = w.depth
		&& p.bit_depth().map(u32::from) != b
	{
		return ne("bit depth", format!("{:?}", p.bit_depth()), format!("{b:?}"));
	}
	if let Some(m) = w.mask
		&& p.channel_mask().map(|m| m.bits()) != m
	{
		return ne("channel mask", format!("{:?}", p.channel_mask()), format!("{m:x?}"));
	}
	let got = p.duration().as_secs_f64() * 1000.;
	if let Some((d, tol)) = w.dur {
		if (got - d).abs() > tol + 0.001 {
			if w.with_headers.is_some_and(|d| (got - d).abs() <= tol + 0.001) {
				return Some(("tag headers count as audio".to_string(), format!("duration {got} ms, the stream says {d} ms: the headers of the leading ID3v2 tags are counted")));
			}
			return ne("duration", format!("{got} ms"), format!("{d} ms"));
		}
		if !w.no_overall && d >= 3.0 {
			let (lo, hi) = (w.audio_only.unwrap_or(len) * 8. / (d + tol) - 1., len * 8. / (d - tol) + 1.);
			let o = f64::from(p.overall_bitrate().unwrap_or(0));
			if o < lo || o > hi {
				return ne("overall bitrate", format!("{o}"), format!("{lo}..{hi}"));
			}
		}
	}
	let a = f64::from(p.audio_bitrate().unwrap_or(0));
	let mut in_frames = None;
	if let Some((lo, hi)) = w.audio
		&& (a < lo || a > hi)
	{
		if w.in_frames.is_some_and(|(lo, hi)| lo <= a && a <= hi) {
			in_frames = Some(("bitrate in frames".to_string(), format!("audio bitrate {a}, the stream says {lo}..{hi}: it is counted in frames of 1152 samples")));
		} else {
			return ne("audio bitrate", format!("{a}"), format!("{lo}..{hi}"));
		}
	}
	if let Some(e) = extra {
		for (n, want) in &w.extra {
			let got = e.iter().find(|(m, _)| m == n).map(|x| &x.1);
			if got != Some(want) {
				return ne(n, format!("{got:?}"), want.clone());
			}
		}
	}
	in_frames
}

pub fn exec_audio(c: &Audio, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	if !c.spec.valid() {
		return Err("not a stream the format can express".into());
	}
	let fmt = c.spec.fmt();
	stats::named(&format!("fmt.{}", fmt.name()));
	let parts = c.spec.parts(&mut Rng::new(mix(&[0x61_7564, c.seed])));
	let mut stream = parts.body.as_ref().map_or(0, Vec::len);
	let i = Inject {
		audio: parts,
		..Inject::default()
	};
	let mut feats = c.feats.clone();
	if matches!(c.spec, Spec::Opus { channels: 234.., .. }) {
		// the identification packet has to fit the first page
		feats.retain(|f| !matches!(f, Feat::PageSegs { .. }));
	}
	let data = build_with(fmt, c.seed, c.units.min(300), &feats, i);
	if fmt == Fmt::Flac {
		stream = c.units.clamp(1, 300) as usize * 44;
	}
	let w = want(&c.spec, stream, &data, c.feats.iter().any(|f| matches!(f, Feat::Junk { .. })));
	let mut d = SimDisk::new(data.clone());
	if let Some(n) = c.noise {
		d = SimDisk::with_plan(data.clone(), Plan::noise(n));
	}
	d.budget = 40 * op_budget(data.len());
	let o = POpts { mode: c.mode, ..POpts::default() };
	let (out, r) = outcome(catch(|| -> Result<_, AnyErr> {
		d.seek(SeekFrom::Start(0))?;
		if c.guess {
			let f = Probe::new(&mut d).options(o.get()).guess_file_type()?.read()?;
			return Ok((f.file_type(), f.properties().clone(), None));
		}
		let f = AnyFile::read(fmt, &mut d, o.get())?;
		let e = extras(&f);
		let t = f.into_tagged();
		Ok((t.file_type(), t.properties().clone(), Some(e)))
	}));
	ctx.sim(&d, d.soft_fired.get() > 0);
	let bad = |what: String, d: String| Ok(vec![viol(what, format!("{}: {d}", fmt.name()))]);
	let Some((ty, p, e)) = r else {
		return bad("unreadable".into(), format!("{out:?}"));
	};
	if ty != file_type(fmt) {
		return bad("wrong type".into(), format!("read as {ty:?}"));
	}
	stats::named("read.ok");
	if let Some((what, d)) = compare(&w, &p, e.as_deref(), data.len() as f64) {
		return bad(what, d);
	}
	Ok(Vec::new())
}
