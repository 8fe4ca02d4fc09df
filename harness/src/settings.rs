//! Documented layout and option values of the setting files (written down once, independent of the code under test).
use rekordcrate::setting::*;
use rekordcrate::device::Settings;
use std::vec;
use std::vec::Vec;

pub fn autocue(x: AutoCue) -> u8 { match x { AutoCue::Off => 0x80, AutoCue::On => 0x81 } }
pub const V_AUTOCUE: &[(AutoCue, u8, &str)] = &[(AutoCue::Off, 0x80, "Off"), (AutoCue::On, 0x81, "On")];
pub fn autocuelevel(x: AutoCueLevel) -> u8 { match x { AutoCueLevel::Minus78dB => 0x87, AutoCueLevel::Minus72dB => 0x86, AutoCueLevel::Minus66dB => 0x85, AutoCueLevel::Minus60dB => 0x84, AutoCueLevel::Minus54dB => 0x83, AutoCueLevel::Minus48dB => 0x82, AutoCueLevel::Minus42dB => 0x81, AutoCueLevel::Minus36dB => 0x80, AutoCueLevel::Memory => 0x88 } }
pub const V_AUTOCUELEVEL: &[(AutoCueLevel, u8, &str)] = &[(AutoCueLevel::Minus78dB, 0x87, "-78dB"), (AutoCueLevel::Minus72dB, 0x86, "-72dB"), (AutoCueLevel::Minus66dB, 0x85, "-66dB"), (AutoCueLevel::Minus60dB, 0x84, "-60dB"), (AutoCueLevel::Minus54dB, 0x83, "-54dB"), (AutoCueLevel::Minus48dB, 0x82, "-48dB"), (AutoCueLevel::Minus42dB, 0x81, "-42dB"), (AutoCueLevel::Minus36dB, 0x80, "-36dB"), (AutoCueLevel::Memory, 0x88, "Memory")];
pub fn beatfxquantize(x: BeatFXQuantize) -> u8 { match x { BeatFXQuantize::Off => 0x80, BeatFXQuantize::On => 0x81 } }
pub const V_BEATFXQUANTIZE: &[(BeatFXQuantize, u8, &str)] = &[(BeatFXQuantize::Off, 0x80, "Off"), (BeatFXQuantize::On, 0x81, "On")];
pub fn beatjumpbeatvalue(x: BeatJumpBeatValue) -> u8 { match x { BeatJumpBeatValue::HalfBeat => 0x80, BeatJumpBeatValue::OneBeat => 0x81, BeatJumpBeatValue::TwoBeat => 0x82, BeatJumpBeatValue::FourBeat => 0x83, BeatJumpBeatValue::EightBeat => 0x84, BeatJumpBeatValue::SixteenBeat => 0x85, BeatJumpBeatValue::ThirtytwoBeat => 0x86, BeatJumpBeatValue::SixtyfourBeat => 0x87 } }
pub const V_BEATJUMPBEATVALUE: &[(BeatJumpBeatValue, u8, &str)] = &[(BeatJumpBeatValue::HalfBeat, 0x80, "1/2 Beat"), (BeatJumpBeatValue::OneBeat, 0x81, "1 Beat"), (BeatJumpBeatValue::TwoBeat, 0x82, "2 Beat"), (BeatJumpBeatValue::FourBeat, 0x83, "4 Beat"), (BeatJumpBeatValue::EightBeat, 0x84, "8 Beat"), (BeatJumpBeatValue::SixteenBeat, 0x85, "16 Beat"), (BeatJumpBeatValue::ThirtytwoBeat, 0x86, "32 Beat"), (BeatJumpBeatValue::SixtyfourBeat, 0x87, "64 Beat")];
pub fn channelfadercurve(x: ChannelFaderCurve) -> u8 { match x { ChannelFaderCurve::SteepTop => 0x80, ChannelFaderCurve::Linear => 0x81, ChannelFaderCurve::SteepBottom => 0x82 } }
pub const V_CHANNELFADERCURVE: &[(ChannelFaderCurve, u8, &str)] = &[(ChannelFaderCurve::SteepTop, 0x80, "Steep Top"), (ChannelFaderCurve::Linear, 0x81, "Linear"), (ChannelFaderCurve::SteepBottom, 0x82, "Steep Bottom")];
pub fn channelfadercurvelongfader(x: ChannelFaderCurveLongFader) -> u8 { match x { ChannelFaderCurveLongFader::Exponential => 0x80, ChannelFaderCurveLongFader::Smooth => 0x81, ChannelFaderCurveLongFader::Linear => 0x82 } }
pub const V_CHANNELFADERCURVELONGFADER: &[(ChannelFaderCurveLongFader, u8, &str)] = &[(ChannelFaderCurveLongFader::Exponential, 0x80, "Exponential"), (ChannelFaderCurveLongFader::Smooth, 0x81, "Smooth"), (ChannelFaderCurveLongFader::Linear, 0x82, "Linear")];
pub fn crossfadercurve(x: CrossfaderCurve) -> u8 { match x { CrossfaderCurve::ConstantPower => 0x80, CrossfaderCurve::SlowCut => 0x81, CrossfaderCurve::FastCut => 0x82 } }
pub const V_CROSSFADERCURVE: &[(CrossfaderCurve, u8, &str)] = &[(CrossfaderCurve::ConstantPower, 0x80, "Constant Power"), (CrossfaderCurve::SlowCut, 0x81, "Slow Cut"), (CrossfaderCurve::FastCut, 0x82, "Fast Cut")];
pub fn discslotillumination(x: DiscSlotIllumination) -> u8 { match x { DiscSlotIllumination::Off => 0x80, DiscSlotIllumination::Dark => 0x81, DiscSlotIllumination::Bright => 0x82 } }
pub const V_DISCSLOTILLUMINATION: &[(DiscSlotIllumination, u8, &str)] = &[(DiscSlotIllumination::Off, 0x80, "Off"), (DiscSlotIllumination::Dark, 0x81, "1 (Dark)"), (DiscSlotIllumination::Bright, 0x82, "2 (Bright)")];
pub fn ejectlock(x: EjectLock) -> u8 { match x { EjectLock::Unlock => 0x80, EjectLock::Lock => 0x81 } }
pub const V_EJECTLOCK: &[(EjectLock, u8, &str)] = &[(EjectLock::Unlock, 0x80, "Unlock"), (EjectLock::Lock, 0x81, "Lock")];
pub fn headphonesmonosplit(x: HeadphonesMonoSplit) -> u8 { match x { HeadphonesMonoSplit::MonoSplit => 0x81, HeadphonesMonoSplit::Stereo => 0x80 } }
pub const V_HEADPHONESMONOSPLIT: &[(HeadphonesMonoSplit, u8, &str)] = &[(HeadphonesMonoSplit::MonoSplit, 0x81, "Mono Split"), (HeadphonesMonoSplit::Stereo, 0x80, "Stereo")];
pub fn headphonespreeq(x: HeadphonesPreEQ) -> u8 { match x { HeadphonesPreEQ::PostEQ => 0x80, HeadphonesPreEQ::PreEQ => 0x81 } }
pub const V_HEADPHONESPREEQ: &[(HeadphonesPreEQ, u8, &str)] = &[(HeadphonesPreEQ::PostEQ, 0x80, "Post EQ"), (HeadphonesPreEQ::PreEQ, 0x81, "Pre EQ")];
pub fn hotcueautoload(x: HotCueAutoLoad) -> u8 { match x { HotCueAutoLoad::Off => 0x80, HotCueAutoLoad::RekordboxSetting => 0x82, HotCueAutoLoad::On => 0x81 } }
pub const V_HOTCUEAUTOLOAD: &[(HotCueAutoLoad, u8, &str)] = &[(HotCueAutoLoad::Off, 0x80, "Off"), (HotCueAutoLoad::RekordboxSetting, 0x82, "rekordbox SETTING"), (HotCueAutoLoad::On, 0x81, "On")];
pub fn hotcuecolor(x: HotCueColor) -> u8 { match x { HotCueColor::Off => 0x80, HotCueColor::On => 0x81 } }
pub const V_HOTCUECOLOR: &[(HotCueColor, u8, &str)] = &[(HotCueColor::Off, 0x80, "Off"), (HotCueColor::On, 0x81, "On")];
pub fn jogdisplaymode(x: JogDisplayMode) -> u8 { match x { JogDisplayMode::Auto => 0x80, JogDisplayMode::Info => 0x81, JogDisplayMode::Simple => 0x82, JogDisplayMode::Artwork => 0x83 } }
pub const V_JOGDISPLAYMODE: &[(JogDisplayMode, u8, &str)] = &[(JogDisplayMode::Auto, 0x80, "Auto"), (JogDisplayMode::Info, 0x81, "Info"), (JogDisplayMode::Simple, 0x82, "Simple"), (JogDisplayMode::Artwork, 0x83, "Artwork")];
pub fn joglcdbrightness(x: JogLCDBrightness) -> u8 { match x { JogLCDBrightness::One => 0x81, JogLCDBrightness::Two => 0x82, JogLCDBrightness::Three => 0x83, JogLCDBrightness::Four => 0x84, JogLCDBrightness::Five => 0x85 } }
pub const V_JOGLCDBRIGHTNESS: &[(JogLCDBrightness, u8, &str)] = &[(JogLCDBrightness::One, 0x81, "1"), (JogLCDBrightness::Two, 0x82, "2"), (JogLCDBrightness::Three, 0x83, "3"), (JogLCDBrightness::Four, 0x84, "4"), (JogLCDBrightness::Five, 0x85, "5")];
pub fn jogmode(x: JogMode) -> u8 { match x { JogMode::Vinyl => 0x81, JogMode::CDJ => 0x80 } }
pub const V_JOGMODE: &[(JogMode, u8, &str)] = &[(JogMode::Vinyl, 0x81, "Vinyl"), (JogMode::CDJ, 0x80, "CDJ")];
pub fn jogringbrightness(x: JogRingBrightness) -> u8 { match x { JogRingBrightness::Off => 0x80, JogRingBrightness::Dark => 0x81, JogRingBrightness::Bright => 0x82 } }
pub const V_JOGRINGBRIGHTNESS: &[(JogRingBrightness, u8, &str)] = &[(JogRingBrightness::Off, 0x80, "Off"), (JogRingBrightness::Dark, 0x81, "1 (Dark)"), (JogRingBrightness::Bright, 0x82, "2 (Bright)")];
pub fn jogringindicator(x: JogRingIndicator) -> u8 { match x { JogRingIndicator::Off => 0x80, JogRingIndicator::On => 0x81 } }
pub const V_JOGRINGINDICATOR: &[(JogRingIndicator, u8, &str)] = &[(JogRingIndicator::Off, 0x80, "Off"), (JogRingIndicator::On, 0x81, "On")];
pub fn keydisplayformat(x: KeyDisplayFormat) -> u8 { match x { KeyDisplayFormat::Classic => 0x01, KeyDisplayFormat::Alphanumeric => 0x02 } }
pub const V_KEYDISPLAYFORMAT: &[(KeyDisplayFormat, u8, &str)] = &[(KeyDisplayFormat::Classic, 0x01, "Classic"), (KeyDisplayFormat::Alphanumeric, 0x02, "Alphanumeric")];
pub fn lcdbrightness(x: LCDBrightness) -> u8 { match x { LCDBrightness::One => 0x81, LCDBrightness::Two => 0x82, LCDBrightness::Three => 0x83, LCDBrightness::Four => 0x84, LCDBrightness::Five => 0x85 } }
pub const V_LCDBRIGHTNESS: &[(LCDBrightness, u8, &str)] = &[(LCDBrightness::One, 0x81, "1"), (LCDBrightness::Two, 0x82, "2"), (LCDBrightness::Three, 0x83, "3"), (LCDBrightness::Four, 0x84, "4"), (LCDBrightness::Five, 0x85, "5")];
pub fn language(x: Language) -> u8 { match x { Language::English => 0x81, Language::French => 0x82, Language::German => 0x83, Language::Italian => 0x84, Language::Dutch => 0x85, Language::Spanish => 0x86, Language::Russian => 0x87, Language::Korean => 0x88, Language::ChineseSimplified => 0x89, Language::ChineseTraditional => 0x8a, Language::Japanese => 0x8b, Language::Portuguese => 0x8c, Language::Swedish => 0x8d, Language::Czech => 0x8e, Language::Hungarian => 0x8f, Language::Danish => 0x90, Language::Greek => 0x91, Language::Turkish => 0x92 } }
pub const V_LANGUAGE: &[(Language, u8, &str)] = &[(Language::English, 0x81, "English"), (Language::French, 0x82, "Français"), (Language::German, 0x83, "Deutsch"), (Language::Italian, 0x84, "Italiano"), (Language::Dutch, 0x85, "Nederlands"), (Language::Spanish, 0x86, "Español"), (Language::Russian, 0x87, "Русский"), (Language::Korean, 0x88, "한국어"), (Language::ChineseSimplified, 0x89, "简体中文"), (Language::ChineseTraditional, 0x8a, "繁體中文"), (Language::Japanese, 0x8b, "日本語"), (Language::Portuguese, 0x8c, "Português"), (Language::Swedish, 0x8d, "Svenska"), (Language::Czech, 0x8e, "Čeština"), (Language::Hungarian, 0x8f, "Magyar"), (Language::Danish, 0x90, "Dansk"), (Language::Greek, 0x91, "Ελληνικά"), (Language::Turkish, 0x92, "Türkçe")];
pub fn mastertempo(x: MasterTempo) -> u8 { match x { MasterTempo::Off => 0x80, MasterTempo::On => 0x81 } }
pub const V_MASTERTEMPO: &[(MasterTempo, u8, &str)] = &[(MasterTempo::Off, 0x80, "Off"), (MasterTempo::On, 0x81, "On")];
pub fn miclowcut(x: MicLowCut) -> u8 { match x { MicLowCut::Off => 0x80, MicLowCut::On => 0x81 } }
pub const V_MICLOWCUT: &[(MicLowCut, u8, &str)] = &[(MicLowCut::Off, 0x80, "Off"), (MicLowCut::On, 0x81, "On")];
pub fn midibuttontype(x: MidiButtonType) -> u8 { match x { MidiButtonType::Toggle => 0x80, MidiButtonType::Trigger => 0x81 } }
pub const V_MIDIBUTTONTYPE: &[(MidiButtonType, u8, &str)] = &[(MidiButtonType::Toggle, 0x80, "Toggle"), (MidiButtonType::Trigger, 0x81, "Trigger")];
pub fn midichannel(x: MidiChannel) -> u8 { match x { MidiChannel::One => 0x80, MidiChannel::Two => 0x81, MidiChannel::Three => 0x82, MidiChannel::Four => 0x83, MidiChannel::Five => 0x84, MidiChannel::Six => 0x85, MidiChannel::Seven => 0x86, MidiChannel::Eight => 0x87, MidiChannel::Nine => 0x88, MidiChannel::Ten => 0x89, MidiChannel::Eleven => 0x8a, MidiChannel::Twelve => 0x8b, MidiChannel::Thirteen => 0x8c, MidiChannel::Fourteen => 0x8d, MidiChannel::Fifteen => 0x8e, MidiChannel::Sixteen => 0x8f } }
pub const V_MIDICHANNEL: &[(MidiChannel, u8, &str)] = &[(MidiChannel::One, 0x80, "1"), (MidiChannel::Two, 0x81, "2"), (MidiChannel::Three, 0x82, "3"), (MidiChannel::Four, 0x83, "4"), (MidiChannel::Five, 0x84, "5"), (MidiChannel::Six, 0x85, "6"), (MidiChannel::Seven, 0x86, "7"), (MidiChannel::Eight, 0x87, "8"), (MidiChannel::Nine, 0x88, "9"), (MidiChannel::Ten, 0x89, "10"), (MidiChannel::Eleven, 0x8a, "11"), (MidiChannel::Twelve, 0x8b, "12"), (MidiChannel::Thirteen, 0x8c, "13"), (MidiChannel::Fourteen, 0x8d, "14"), (MidiChannel::Fifteen, 0x8e, "15"), (MidiChannel::Sixteen, 0x8f, "16")];
pub fn mixerdisplaybrightness(x: MixerDisplayBrightness) -> u8 { match x { MixerDisplayBrightness::White => 0x80, MixerDisplayBrightness::One => 0x81, MixerDisplayBrightness::Two => 0x82, MixerDisplayBrightness::Three => 0x83, MixerDisplayBrightness::Four => 0x84, MixerDisplayBrightness::Five => 0x85 } }
pub const V_MIXERDISPLAYBRIGHTNESS: &[(MixerDisplayBrightness, u8, &str)] = &[(MixerDisplayBrightness::White, 0x80, "White"), (MixerDisplayBrightness::One, 0x81, "1"), (MixerDisplayBrightness::Two, 0x82, "2"), (MixerDisplayBrightness::Three, 0x83, "3"), (MixerDisplayBrightness::Four, 0x84, "4"), (MixerDisplayBrightness::Five, 0x85, "5")];
pub fn mixerindicatorbrightness(x: MixerIndicatorBrightness) -> u8 { match x { MixerIndicatorBrightness::One => 0x80, MixerIndicatorBrightness::Two => 0x81, MixerIndicatorBrightness::Three => 0x82 } }
pub const V_MIXERINDICATORBRIGHTNESS: &[(MixerIndicatorBrightness, u8, &str)] = &[(MixerIndicatorBrightness::One, 0x80, "1"), (MixerIndicatorBrightness::Two, 0x81, "2"), (MixerIndicatorBrightness::Three, 0x82, "3")];
pub fn needlelock(x: NeedleLock) -> u8 { match x { NeedleLock::Unlock => 0x80, NeedleLock::Lock => 0x81 } }
pub const V_NEEDLELOCK: &[(NeedleLock, u8, &str)] = &[(NeedleLock::Unlock, 0x80, "Unlock"), (NeedleLock::Lock, 0x81, "Lock")];
pub fn onairdisplay(x: OnAirDisplay) -> u8 { match x { OnAirDisplay::Off => 0x80, OnAirDisplay::On => 0x81 } }
pub const V_ONAIRDISPLAY: &[(OnAirDisplay, u8, &str)] = &[(OnAirDisplay::Off, 0x80, "Off"), (OnAirDisplay::On, 0x81, "On")];
pub fn overviewwaveformtype(x: OverviewWaveformType) -> u8 { match x { OverviewWaveformType::HalfWaveform => 0x01, OverviewWaveformType::FullWaveform => 0x02 } }
pub const V_OVERVIEWWAVEFORMTYPE: &[(OverviewWaveformType, u8, &str)] = &[(OverviewWaveformType::HalfWaveform, 0x01, "Half Waveform"), (OverviewWaveformType::FullWaveform, 0x02, "Full Waveform")];
pub fn padbuttonbrightness(x: PadButtonBrightness) -> u8 { match x { PadButtonBrightness::One => 0x81, PadButtonBrightness::Two => 0x82, PadButtonBrightness::Three => 0x83, PadButtonBrightness::Four => 0x84 } }
pub const V_PADBUTTONBRIGHTNESS: &[(PadButtonBrightness, u8, &str)] = &[(PadButtonBrightness::One, 0x81, "1"), (PadButtonBrightness::Two, 0x82, "2"), (PadButtonBrightness::Three, 0x83, "3"), (PadButtonBrightness::Four, 0x84, "4")];
pub fn phasemeter(x: PhaseMeter) -> u8 { match x { PhaseMeter::Type1 => 0x80, PhaseMeter::Type2 => 0x81 } }
pub const V_PHASEMETER: &[(PhaseMeter, u8, &str)] = &[(PhaseMeter::Type1, 0x80, "Type 1"), (PhaseMeter::Type2, 0x81, "Type 2")];
pub fn playmode(x: PlayMode) -> u8 { match x { PlayMode::Continue => 0x80, PlayMode::Single => 0x81 } }
pub const V_PLAYMODE: &[(PlayMode, u8, &str)] = &[(PlayMode::Continue, 0x80, "Continue / On"), (PlayMode::Single, 0x81, "Single / Off")];
pub fn quantize(x: Quantize) -> u8 { match x { Quantize::Off => 0x80, Quantize::On => 0x81 } }
pub const V_QUANTIZE: &[(Quantize, u8, &str)] = &[(Quantize::Off, 0x80, "Off"), (Quantize::On, 0x81, "On")];
pub fn quantizebeatvalue(x: QuantizeBeatValue) -> u8 { match x { QuantizeBeatValue::EighthBeat => 0x83, QuantizeBeatValue::QuarterBeat => 0x82, QuantizeBeatValue::HalfBeat => 0x81, QuantizeBeatValue::FullBeat => 0x80 } }
pub const V_QUANTIZEBEATVALUE: &[(QuantizeBeatValue, u8, &str)] = &[(QuantizeBeatValue::EighthBeat, 0x83, "1/8 Beat"), (QuantizeBeatValue::QuarterBeat, 0x82, "1/4 Beat"), (QuantizeBeatValue::HalfBeat, 0x81, "1/2 Beat"), (QuantizeBeatValue::FullBeat, 0x80, "1 Beat")];
pub fn slipflashing(x: SlipFlashing) -> u8 { match x { SlipFlashing::Off => 0x80, SlipFlashing::On => 0x81 } }
pub const V_SLIPFLASHING: &[(SlipFlashing, u8, &str)] = &[(SlipFlashing::Off, 0x80, "Off"), (SlipFlashing::On, 0x81, "On")];
pub fn sync(x: Sync) -> u8 { match x { Sync::Off => 0x80, Sync::On => 0x81 } }
pub const V_SYNC: &[(Sync, u8, &str)] = &[(Sync::Off, 0x80, "Off"), (Sync::On, 0x81, "On")];
pub fn talkoverlevel(x: TalkOverLevel) -> u8 { match x { TalkOverLevel::Minus24dB => 0x80, TalkOverLevel::Minus18dB => 0x81, TalkOverLevel::Minus12dB => 0x82, TalkOverLevel::Minus6dB => 0x83 } }
pub const V_TALKOVERLEVEL: &[(TalkOverLevel, u8, &str)] = &[(TalkOverLevel::Minus24dB, 0x80, "-24dB"), (TalkOverLevel::Minus18dB, 0x81, "-18dB"), (TalkOverLevel::Minus12dB, 0x82, "-12dB"), (TalkOverLevel::Minus6dB, 0x83, "-6dB")];
pub fn talkovermode(x: TalkOverMode) -> u8 { match x { TalkOverMode::Advanced => 0x80, TalkOverMode::Normal => 0x81 } }
pub const V_TALKOVERMODE: &[(TalkOverMode, u8, &str)] = &[(TalkOverMode::Advanced, 0x80, "Advanced"), (TalkOverMode::Normal, 0x81, "Normal")];
pub fn temporange(x: TempoRange) -> u8 { match x { TempoRange::SixPercent => 0x80, TempoRange::TenPercent => 0x81, TempoRange::SixteenPercent => 0x82, TempoRange::Wide => 0x83 } }
pub const V_TEMPORANGE: &[(TempoRange, u8, &str)] = &[(TempoRange::SixPercent, 0x80, "±6%"), (TempoRange::TenPercent, 0x81, "±10%"), (TempoRange::SixteenPercent, 0x82, "±16%"), (TempoRange::Wide, 0x83, "Wide")];
pub fn timemode(x: TimeMode) -> u8 { match x { TimeMode::Elapsed => 0x80, TimeMode::Remain => 0x81 } }
pub const V_TIMEMODE: &[(TimeMode, u8, &str)] = &[(TimeMode::Elapsed, 0x80, "Elapsed"), (TimeMode::Remain, 0x81, "Remain")];
pub fn vinylspeedadjust(x: VinylSpeedAdjust) -> u8 { match x { VinylSpeedAdjust::TouchRelease => 0x80, VinylSpeedAdjust::Touch => 0x81, VinylSpeedAdjust::Release => 0x82 } }
pub const V_VINYLSPEEDADJUST: &[(VinylSpeedAdjust, u8, &str)] = &[(VinylSpeedAdjust::TouchRelease, 0x80, "Touch & Release"), (VinylSpeedAdjust::Touch, 0x81, "Touch"), (VinylSpeedAdjust::Release, 0x82, "Release")];
pub fn waveform(x: Waveform) -> u8 { match x { Waveform::Waveform => 0x80, Waveform::PhaseMeter => 0x81 } }
pub const V_WAVEFORM: &[(Waveform, u8, &str)] = &[(Waveform::Waveform, 0x80, "Waveform"), (Waveform::PhaseMeter, 0x81, "Phase Meter")];
pub fn waveformcolor(x: WaveformColor) -> u8 { match x { WaveformColor::Blue => 0x01, WaveformColor::Rgb => 0x03, WaveformColor::TriBand => 0x04 } }
pub const V_WAVEFORMCOLOR: &[(WaveformColor, u8, &str)] = &[(WaveformColor::Blue, 0x01, "Blue"), (WaveformColor::Rgb, 0x03, "RGB"), (WaveformColor::TriBand, 0x04, "3Band")];
pub fn waveformcurrentposition(x: WaveformCurrentPosition) -> u8 { match x { WaveformCurrentPosition::Left => 0x02, WaveformCurrentPosition::Center => 0x01 } }
pub const V_WAVEFORMCURRENTPOSITION: &[(WaveformCurrentPosition, u8, &str)] = &[(WaveformCurrentPosition::Left, 0x02, "Left"), (WaveformCurrentPosition::Center, 0x01, "Center")];
pub fn waveformdivisions(x: WaveformDivisions) -> u8 { match x { WaveformDivisions::TimeScale => 0x80, WaveformDivisions::Phrase => 0x81 } }
pub const V_WAVEFORMDIVISIONS: &[(WaveformDivisions, u8, &str)] = &[(WaveformDivisions::TimeScale, 0x80, "Time Scale"), (WaveformDivisions::Phrase, 0x81, "Phrase")];
/// number of options of each kind of file
pub const OPTIONS: [usize; 4] = [4, 13, 22, 7];
/// size of the data of each kind of file
pub const SIZE: [usize; 4] = [32, 52, 40, 40];
/// position of each option inside the data
pub const AT: [&[usize]; 4] = [&[9, 10, 12, 13], &[12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24], &[8, 9, 10, 11, 12, 14, 15, 16, 20, 21, 22, 23, 24, 25, 26, 29, 32, 33, 34, 35, 36, 37], &[0, 1, 2, 3, 4, 10, 12]];
pub fn valid(k: usize, i: usize, x: u8) -> bool {
    match (k, i) {
        (0, 0) => x.wrapping_sub(0x01) < 2, // overview_waveform_type
        (0, 1) => (x == 0x01) | (x == 0x03) | (x == 0x04), // waveform_color
        (0, 2) => x.wrapping_sub(0x01) < 2, // key_display_format
        (0, 3) => x.wrapping_sub(0x01) < 2, // waveform_current_position
        (1, 0) => x.wrapping_sub(0x80) < 3, // channel_fader_curve
        (1, 1) => x.wrapping_sub(0x80) < 3, // crossfader_curve
        (1, 2) => x.wrapping_sub(0x80) < 2, // headphones_pre_eq
        (1, 3) => x.wrapping_sub(0x80) < 2, // headphones_mono_split
        (1, 4) => x.wrapping_sub(0x80) < 2, // beat_fx_quantize
        (1, 5) => x.wrapping_sub(0x80) < 2, // mic_low_cut
        (1, 6) => x.wrapping_sub(0x80) < 2, // talk_over_mode
        (1, 7) => x.wrapping_sub(0x80) < 4, // talk_over_level
        (1, 8) => x.wrapping_sub(0x80) < 16, // midi_channel
        (1, 9) => x.wrapping_sub(0x80) < 2, // midi_button_type
        (1, 10) => x.wrapping_sub(0x80) < 6, // display_brightness
        (1, 11) => x.wrapping_sub(0x80) < 3, // indicator_brightness
        (1, 12) => x.wrapping_sub(0x80) < 3, // channel_fader_curve_long_fader
        (2, 0) => x.wrapping_sub(0x80) < 2, // on_air_display
        (2, 1) => x.wrapping_sub(0x81) < 5, // lcd_brightness
        (2, 2) => x.wrapping_sub(0x80) < 2, // quantize
        (2, 3) => x.wrapping_sub(0x80) < 9, // auto_cue_level
        (2, 4) => x.wrapping_sub(0x81) < 18, // language
        (2, 5) => x.wrapping_sub(0x80) < 3, // jog_ring_brightness
        (2, 6) => x.wrapping_sub(0x80) < 2, // jog_ring_indicator
        (2, 7) => x.wrapping_sub(0x80) < 2, // slip_flashing
        (2, 8) => x.wrapping_sub(0x80) < 3, // disc_slot_illumination
        (2, 9) => x.wrapping_sub(0x80) < 2, // eject_lock
        (2, 10) => x.wrapping_sub(0x80) < 2, // sync
        (2, 11) => x.wrapping_sub(0x80) < 2, // play_mode
        (2, 12) => x.wrapping_sub(0x80) < 4, // quantize_beat_value
        (2, 13) => x.wrapping_sub(0x80) < 3, // hotcue_autoload
        (2, 14) => x.wrapping_sub(0x80) < 2, // hotcue_color
        (2, 15) => x.wrapping_sub(0x80) < 2, // needle_lock
        (2, 16) => x.wrapping_sub(0x80) < 2, // time_mode
        (2, 17) => x.wrapping_sub(0x80) < 2, // jog_mode
        (2, 18) => x.wrapping_sub(0x80) < 2, // auto_cue
        (2, 19) => x.wrapping_sub(0x80) < 2, // master_tempo
        (2, 20) => x.wrapping_sub(0x80) < 4, // tempo_range
        (2, 21) => x.wrapping_sub(0x80) < 2, // phase_meter
        (3, 0) => x.wrapping_sub(0x80) < 3, // vinyl_speed_adjust
        (3, 1) => x.wrapping_sub(0x80) < 4, // jog_display_mode
        (3, 2) => x.wrapping_sub(0x81) < 4, // pad_button_brightness
        (3, 3) => x.wrapping_sub(0x81) < 5, // jog_lcd_brightness
        (3, 4) => x.wrapping_sub(0x80) < 2, // waveform_divisions
        (3, 5) => x.wrapping_sub(0x80) < 2, // waveform
        (3, 6) => x.wrapping_sub(0x80) < 8, // beat_jump_beat_value
        _ => false,
    }
}
/// documented code of an option
pub fn code(d: &SettingData, i: usize) -> u8 {
    match (d, i) {
        (SettingData::DevSetting(s), 0) => overviewwaveformtype(s.overview_waveform_type),
        (SettingData::DevSetting(s), 1) => waveformcolor(s.waveform_color),
        (SettingData::DevSetting(s), 2) => keydisplayformat(s.key_display_format),
        (SettingData::DevSetting(s), 3) => waveformcurrentposition(s.waveform_current_position),
        (SettingData::DJMMySetting(s), 0) => channelfadercurve(s.channel_fader_curve),
        (SettingData::DJMMySetting(s), 1) => crossfadercurve(s.crossfader_curve),
        (SettingData::DJMMySetting(s), 2) => headphonespreeq(s.headphones_pre_eq),
        (SettingData::DJMMySetting(s), 3) => headphonesmonosplit(s.headphones_mono_split),
        (SettingData::DJMMySetting(s), 4) => beatfxquantize(s.beat_fx_quantize),
        (SettingData::DJMMySetting(s), 5) => miclowcut(s.mic_low_cut),
        (SettingData::DJMMySetting(s), 6) => talkovermode(s.talk_over_mode),
        (SettingData::DJMMySetting(s), 7) => talkoverlevel(s.talk_over_level),
        (SettingData::DJMMySetting(s), 8) => midichannel(s.midi_channel),
        (SettingData::DJMMySetting(s), 9) => midibuttontype(s.midi_button_type),
        (SettingData::DJMMySetting(s), 10) => mixerdisplaybrightness(s.display_brightness),
        (SettingData::DJMMySetting(s), 11) => mixerindicatorbrightness(s.indicator_brightness),
        (SettingData::DJMMySetting(s), 12) => channelfadercurvelongfader(s.channel_fader_curve_long_fader),
        (SettingData::MySetting(s), 0) => onairdisplay(s.on_air_display),
        (SettingData::MySetting(s), 1) => lcdbrightness(s.lcd_brightness),
        (SettingData::MySetting(s), 2) => quantize(s.quantize),
        (SettingData::MySetting(s), 3) => autocuelevel(s.auto_cue_level),
        (SettingData::MySetting(s), 4) => language(s.language),
        (SettingData::MySetting(s), 5) => jogringbrightness(s.jog_ring_brightness),
        (SettingData::MySetting(s), 6) => jogringindicator(s.jog_ring_indicator),
        (SettingData::MySetting(s), 7) => slipflashing(s.slip_flashing),
        (SettingData::MySetting(s), 8) => discslotillumination(s.disc_slot_illumination),
        (SettingData::MySetting(s), 9) => ejectlock(s.eject_lock),
        (SettingData::MySetting(s), 10) => sync(s.sync),
        (SettingData::MySetting(s), 11) => playmode(s.play_mode),
        (SettingData::MySetting(s), 12) => quantizebeatvalue(s.quantize_beat_value),
        (SettingData::MySetting(s), 13) => hotcueautoload(s.hotcue_autoload),
        (SettingData::MySetting(s), 14) => hotcuecolor(s.hotcue_color),
        (SettingData::MySetting(s), 15) => needlelock(s.needle_lock),
        (SettingData::MySetting(s), 16) => timemode(s.time_mode),
        (SettingData::MySetting(s), 17) => jogmode(s.jog_mode),
        (SettingData::MySetting(s), 18) => autocue(s.auto_cue),
        (SettingData::MySetting(s), 19) => mastertempo(s.master_tempo),
        (SettingData::MySetting(s), 20) => temporange(s.tempo_range),
        (SettingData::MySetting(s), 21) => phasemeter(s.phase_meter),
        (SettingData::MySetting2(s), 0) => vinylspeedadjust(s.vinyl_speed_adjust),
        (SettingData::MySetting2(s), 1) => jogdisplaymode(s.jog_display_mode),
        (SettingData::MySetting2(s), 2) => padbuttonbrightness(s.pad_button_brightness),
        (SettingData::MySetting2(s), 3) => joglcdbrightness(s.jog_lcd_brightness),
        (SettingData::MySetting2(s), 4) => waveformdivisions(s.waveform_divisions),
        (SettingData::MySetting2(s), 5) => waveform(s.waveform),
        (SettingData::MySetting2(s), 6) => beatjumpbeatvalue(s.beat_jump_beat_value),
        _ => 0,
    }
}
/// set option i to the one documented by code x
pub fn set(d: &mut SettingData, i: usize, x: u8) {
    match (d, i) {
        (SettingData::DevSetting(s), 0) => for (v, c, _) in V_OVERVIEWWAVEFORMTYPE { if *c == x { s.overview_waveform_type = *v; } },
        (SettingData::DevSetting(s), 1) => for (v, c, _) in V_WAVEFORMCOLOR { if *c == x { s.waveform_color = *v; } },
        (SettingData::DevSetting(s), 2) => for (v, c, _) in V_KEYDISPLAYFORMAT { if *c == x { s.key_display_format = *v; } },
        (SettingData::DevSetting(s), 3) => for (v, c, _) in V_WAVEFORMCURRENTPOSITION { if *c == x { s.waveform_current_position = *v; } },
        (SettingData::DJMMySetting(s), 0) => for (v, c, _) in V_CHANNELFADERCURVE { if *c == x { s.channel_fader_curve = *v; } },
        (SettingData::DJMMySetting(s), 1) => for (v, c, _) in V_CROSSFADERCURVE { if *c == x { s.crossfader_curve = *v; } },
        (SettingData::DJMMySetting(s), 2) => for (v, c, _) in V_HEADPHONESPREEQ { if *c == x { s.headphones_pre_eq = *v; } },
        (SettingData::DJMMySetting(s), 3) => for (v, c, _) in V_HEADPHONESMONOSPLIT { if *c == x { s.headphones_mono_split = *v; } },
        (SettingData::DJMMySetting(s), 4) => for (v, c, _) in V_BEATFXQUANTIZE { if *c == x { s.beat_fx_quantize = *v; } },
        (SettingData::DJMMySetting(s), 5) => for (v, c, _) in V_MICLOWCUT { if *c == x { s.mic_low_cut = *v; } },
        (SettingData::DJMMySetting(s), 6) => for (v, c, _) in V_TALKOVERMODE { if *c == x { s.talk_over_mode = *v; } },
        (SettingData::DJMMySetting(s), 7) => for (v, c, _) in V_TALKOVERLEVEL { if *c == x { s.talk_over_level = *v; } },
        (SettingData::DJMMySetting(s), 8) => for (v, c, _) in V_MIDICHANNEL { if *c == x { s.midi_channel = *v; } },
        (SettingData::DJMMySetting(s), 9) => for (v, c, _) in V_MIDIBUTTONTYPE { if *c == x { s.midi_button_type = *v; } },
        (SettingData::DJMMySetting(s), 10) => for (v, c, _) in V_MIXERDISPLAYBRIGHTNESS { if *c == x { s.display_brightness = *v; } },
        (SettingData::DJMMySetting(s), 11) => for (v, c, _) in V_MIXERINDICATORBRIGHTNESS { if *c == x { s.indicator_brightness = *v; } },
        (SettingData::DJMMySetting(s), 12) => for (v, c, _) in V_CHANNELFADERCURVELONGFADER { if *c == x { s.channel_fader_curve_long_fader = *v; } },
        (SettingData::MySetting(s), 0) => for (v, c, _) in V_ONAIRDISPLAY { if *c == x { s.on_air_display = *v; } },
        (SettingData::MySetting(s), 1) => for (v, c, _) in V_LCDBRIGHTNESS { if *c == x { s.lcd_brightness = *v; } },
        (SettingData::MySetting(s), 2) => for (v, c, _) in V_QUANTIZE { if *c == x { s.quantize = *v; } },
        (SettingData::MySetting(s), 3) => for (v, c, _) in V_AUTOCUELEVEL { if *c == x { s.auto_cue_level = *v; } },
        (SettingData::MySetting(s), 4) => for (v, c, _) in V_LANGUAGE { if *c == x { s.language = *v; } },
        (SettingData::MySetting(s), 5) => for (v, c, _) in V_JOGRINGBRIGHTNESS { if *c == x { s.jog_ring_brightness = *v; } },
        (SettingData::MySetting(s), 6) => for (v, c, _) in V_JOGRINGINDICATOR { if *c == x { s.jog_ring_indicator = *v; } },
        (SettingData::MySetting(s), 7) => for (v, c, _) in V_SLIPFLASHING { if *c == x { s.slip_flashing = *v; } },
        (SettingData::MySetting(s), 8) => for (v, c, _) in V_DISCSLOTILLUMINATION { if *c == x { s.disc_slot_illumination = *v; } },
        (SettingData::MySetting(s), 9) => for (v, c, _) in V_EJECTLOCK { if *c == x { s.eject_lock = *v; } },
        (SettingData::MySetting(s), 10) => for (v, c, _) in V_SYNC { if *c == x { s.sync = *v; } },
        (SettingData::MySetting(s), 11) => for (v, c, _) in V_PLAYMODE { if *c == x { s.play_mode = *v; } },
        (SettingData::MySetting(s), 12) => for (v, c, _) in V_QUANTIZEBEATVALUE { if *c == x { s.quantize_beat_value = *v; } },
        (SettingData::MySetting(s), 13) => for (v, c, _) in V_HOTCUEAUTOLOAD { if *c == x { s.hotcue_autoload = *v; } },
        (SettingData::MySetting(s), 14) => for (v, c, _) in V_HOTCUECOLOR { if *c == x { s.hotcue_color = *v; } },
        (SettingData::MySetting(s), 15) => for (v, c, _) in V_NEEDLELOCK { if *c == x { s.needle_lock = *v; } },
        (SettingData::MySetting(s), 16) => for (v, c, _) in V_TIMEMODE { if *c == x { s.time_mode = *v; } },
        (SettingData::MySetting(s), 17) => for (v, c, _) in V_JOGMODE { if *c == x { s.jog_mode = *v; } },
        (SettingData::MySetting(s), 18) => for (v, c, _) in V_AUTOCUE { if *c == x { s.auto_cue = *v; } },
        (SettingData::MySetting(s), 19) => for (v, c, _) in V_MASTERTEMPO { if *c == x { s.master_tempo = *v; } },
        (SettingData::MySetting(s), 20) => for (v, c, _) in V_TEMPORANGE { if *c == x { s.tempo_range = *v; } },
        (SettingData::MySetting(s), 21) => for (v, c, _) in V_PHASEMETER { if *c == x { s.phase_meter = *v; } },
        (SettingData::MySetting2(s), 0) => for (v, c, _) in V_VINYLSPEEDADJUST { if *c == x { s.vinyl_speed_adjust = *v; } },
        (SettingData::MySetting2(s), 1) => for (v, c, _) in V_JOGDISPLAYMODE { if *c == x { s.jog_display_mode = *v; } },
        (SettingData::MySetting2(s), 2) => for (v, c, _) in V_PADBUTTONBRIGHTNESS { if *c == x { s.pad_button_brightness = *v; } },
        (SettingData::MySetting2(s), 3) => for (v, c, _) in V_JOGLCDBRIGHTNESS { if *c == x { s.jog_lcd_brightness = *v; } },
        (SettingData::MySetting2(s), 4) => for (v, c, _) in V_WAVEFORMDIVISIONS { if *c == x { s.waveform_divisions = *v; } },
        (SettingData::MySetting2(s), 5) => for (v, c, _) in V_WAVEFORM { if *c == x { s.waveform = *v; } },
        (SettingData::MySetting2(s), 6) => for (v, c, _) in V_BEATJUMPBEATVALUE { if *c == x { s.beat_jump_beat_value = *v; } },
        _ => {}
    }
}
/// code of option i of kind k as reported for a device
pub fn loaded(s: &Settings, k: usize, i: usize) -> Option<u8> {
    match (k, i) {
        (0, 0) => s.overview_waveform_type.map(overviewwaveformtype),
        (0, 1) => s.waveform_color.map(waveformcolor),
        (0, 2) => s.key_display_format.map(keydisplayformat),
        (0, 3) => s.waveform_current_position.map(waveformcurrentposition),
        (1, 0) => s.channel_fader_curve.map(channelfadercurve),
        (1, 1) => s.crossfader_curve.map(crossfadercurve),
        (1, 2) => s.headphones_pre_eq.map(headphonespreeq),
        (1, 3) => s.headphones_mono_split.map(headphonesmonosplit),
        (1, 4) => s.beat_fx_quantize.map(beatfxquantize),
        (1, 5) => s.mic_low_cut.map(miclowcut),
        (1, 6) => s.talk_over_mode.map(talkovermode),
        (1, 7) => s.talk_over_level.map(talkoverlevel),
        (1, 8) => s.midi_channel.map(midichannel),
        (1, 9) => s.midi_button_type.map(midibuttontype),
        (1, 10) => s.display_brightness.map(mixerdisplaybrightness),
        (1, 11) => s.indicator_brightness.map(mixerindicatorbrightness),
        (1, 12) => s.channel_fader_curve_long_fader.map(channelfadercurvelongfader),
        (2, 0) => s.on_air_display.map(onairdisplay),
        (2, 1) => s.lcd_brightness.map(lcdbrightness),
        (2, 2) => s.quantize.map(quantize),
        (2, 3) => s.auto_cue_level.map(autocuelevel),
        (2, 4) => s.language.map(language),
        (2, 5) => s.jog_ring_brightness.map(jogringbrightness),
        (2, 6) => s.jog_ring_indicator.map(jogringindicator),
        (2, 7) => s.slip_flashing.map(slipflashing),
        (2, 8) => s.disc_slot_illumination.map(discslotillumination),
        (2, 9) => s.eject_lock.map(ejectlock),
        (2, 10) => s.sync.map(sync),
        (2, 11) => s.play_mode.map(playmode),
        (2, 12) => s.quantize_beat_value.map(quantizebeatvalue),
        (2, 13) => s.hotcue_autoload.map(hotcueautoload),
        (2, 14) => s.hotcue_color.map(hotcuecolor),
        (2, 15) => s.needle_lock.map(needlelock),
        (2, 16) => s.time_mode.map(timemode),
        (2, 17) => s.jog_mode.map(jogmode),
        (2, 18) => s.auto_cue.map(autocue),
        (2, 19) => s.master_tempo.map(mastertempo),
        (2, 20) => s.tempo_range.map(temporange),
        (2, 21) => s.phase_meter.map(phasemeter),
        (3, 0) => s.vinyl_speed_adjust.map(vinylspeedadjust),
        (3, 1) => s.jog_display_mode.map(jogdisplaymode),
        (3, 2) => s.pad_button_brightness.map(padbuttonbrightness),
        (3, 3) => s.jog_lcd_brightness.map(joglcdbrightness),
        (3, 4) => s.waveform_divisions.map(waveformdivisions),
        (3, 5) => s.waveform.map(waveform),
        (3, 6) => s.beat_jump_beat_value.map(beatjumpbeatvalue),
        _ => None,
    }
}
/// documented text of a value of an option
pub fn shown(k: usize, i: usize, x: u8) -> &'static str {
    fn pick<T>(v: &'static [(T, u8, &'static str)], x: u8) -> &'static str { for (_, c, t) in v { if *c == x { return t; } } "?" }
    match (k, i) {
        (0, 0) => pick(V_OVERVIEWWAVEFORMTYPE, x),
        (0, 1) => pick(V_WAVEFORMCOLOR, x),
        (0, 2) => pick(V_KEYDISPLAYFORMAT, x),
        (0, 3) => pick(V_WAVEFORMCURRENTPOSITION, x),
        (1, 0) => pick(V_CHANNELFADERCURVE, x),
        (1, 1) => pick(V_CROSSFADERCURVE, x),
        (1, 2) => pick(V_HEADPHONESPREEQ, x),
        (1, 3) => pick(V_HEADPHONESMONOSPLIT, x),
        (1, 4) => pick(V_BEATFXQUANTIZE, x),
        (1, 5) => pick(V_MICLOWCUT, x),
        (1, 6) => pick(V_TALKOVERMODE, x),
        (1, 7) => pick(V_TALKOVERLEVEL, x),
        (1, 8) => pick(V_MIDICHANNEL, x),
        (1, 9) => pick(V_MIDIBUTTONTYPE, x),
        (1, 10) => pick(V_MIXERDISPLAYBRIGHTNESS, x),
        (1, 11) => pick(V_MIXERINDICATORBRIGHTNESS, x),
        (1, 12) => pick(V_CHANNELFADERCURVELONGFADER, x),
        (2, 0) => pick(V_ONAIRDISPLAY, x),
        (2, 1) => pick(V_LCDBRIGHTNESS, x),
        (2, 2) => pick(V_QUANTIZE, x),
        (2, 3) => pick(V_AUTOCUELEVEL, x),
        (2, 4) => pick(V_LANGUAGE, x),
        (2, 5) => pick(V_JOGRINGBRIGHTNESS, x),
        (2, 6) => pick(V_JOGRINGINDICATOR, x),
        (2, 7) => pick(V_SLIPFLASHING, x),
        (2, 8) => pick(V_DISCSLOTILLUMINATION, x),
        (2, 9) => pick(V_EJECTLOCK, x),
        (2, 10) => pick(V_SYNC, x),
        (2, 11) => pick(V_PLAYMODE, x),
        (2, 12) => pick(V_QUANTIZEBEATVALUE, x),
        (2, 13) => pick(V_HOTCUEAUTOLOAD, x),
        (2, 14) => pick(V_HOTCUECOLOR, x),
        (2, 15) => pick(V_NEEDLELOCK, x),
        (2, 16) => pick(V_TIMEMODE, x),
        (2, 17) => pick(V_JOGMODE, x),
        (2, 18) => pick(V_AUTOCUE, x),
        (2, 19) => pick(V_MASTERTEMPO, x),
        (2, 20) => pick(V_TEMPORANGE, x),
        (2, 21) => pick(V_PHASEMETER, x),
        (3, 0) => pick(V_VINYLSPEEDADJUST, x),
        (3, 1) => pick(V_JOGDISPLAYMODE, x),
        (3, 2) => pick(V_PADBUTTONBRIGHTNESS, x),
        (3, 3) => pick(V_JOGLCDBRIGHTNESS, x),
        (3, 4) => pick(V_WAVEFORMDIVISIONS, x),
        (3, 5) => pick(V_WAVEFORM, x),
        (3, 6) => pick(V_BEATJUMPBEATVALUE, x),
        _ => "?",
    }
}
/// documented default codes
pub const DEFAULTS: [&[u8]; 4] = [&[0x01, 0x01, 0x01, 0x01], &[0x81, 0x82, 0x80, 0x80, 0x81, 0x81, 0x80, 0x81, 0x80, 0x80, 0x85, 0x82, 0x80], &[0x81, 0x83, 0x81, 0x88, 0x81, 0x82, 0x81, 0x81, 0x82, 0x80, 0x80, 0x81, 0x80, 0x81, 0x80, 0x81, 0x81, 0x81, 0x81, 0x80, 0x81, 0x80], &[0x81, 0x80, 0x83, 0x83, 0x81, 0x80, 0x85]];
/// does every option show its documented text?
pub fn texts() -> bool {
    let mut ok = true;
    for (v, _, t) in V_AUTOCUE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_AUTOCUELEVEL { ok &= v.to_string() == *t; }
    for (v, _, t) in V_BEATFXQUANTIZE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_BEATJUMPBEATVALUE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_CHANNELFADERCURVE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_CHANNELFADERCURVELONGFADER { ok &= v.to_string() == *t; }
    for (v, _, t) in V_CROSSFADERCURVE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_DISCSLOTILLUMINATION { ok &= v.to_string() == *t; }
    for (v, _, t) in V_EJECTLOCK { ok &= v.to_string() == *t; }
    for (v, _, t) in V_HEADPHONESMONOSPLIT { ok &= v.to_string() == *t; }
    for (v, _, t) in V_HEADPHONESPREEQ { ok &= v.to_string() == *t; }
    for (v, _, t) in V_HOTCUEAUTOLOAD { ok &= v.to_string() == *t; }
    for (v, _, t) in V_HOTCUECOLOR { ok &= v.to_string() == *t; }
    for (v, _, t) in V_JOGDISPLAYMODE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_JOGLCDBRIGHTNESS { ok &= v.to_string() == *t; }
    for (v, _, t) in V_JOGMODE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_JOGRINGBRIGHTNESS { ok &= v.to_string() == *t; }
    for (v, _, t) in V_JOGRINGINDICATOR { ok &= v.to_string() == *t; }
    for (v, _, t) in V_KEYDISPLAYFORMAT { ok &= v.to_string() == *t; }
    for (v, _, t) in V_LCDBRIGHTNESS { ok &= v.to_string() == *t; }
    for (v, _, t) in V_LANGUAGE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_MASTERTEMPO { ok &= v.to_string() == *t; }
    for (v, _, t) in V_MICLOWCUT { ok &= v.to_string() == *t; }
    for (v, _, t) in V_MIDIBUTTONTYPE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_MIDICHANNEL { ok &= v.to_string() == *t; }
    for (v, _, t) in V_MIXERDISPLAYBRIGHTNESS { ok &= v.to_string() == *t; }
    for (v, _, t) in V_MIXERINDICATORBRIGHTNESS { ok &= v.to_string() == *t; }
    for (v, _, t) in V_NEEDLELOCK { ok &= v.to_string() == *t; }
    for (v, _, t) in V_ONAIRDISPLAY { ok &= v.to_string() == *t; }
    for (v, _, t) in V_OVERVIEWWAVEFORMTYPE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_PADBUTTONBRIGHTNESS { ok &= v.to_string() == *t; }
    for (v, _, t) in V_PHASEMETER { ok &= v.to_string() == *t; }
    for (v, _, t) in V_PLAYMODE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_QUANTIZE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_QUANTIZEBEATVALUE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_SLIPFLASHING { ok &= v.to_string() == *t; }
    for (v, _, t) in V_SYNC { ok &= v.to_string() == *t; }
    for (v, _, t) in V_TALKOVERLEVEL { ok &= v.to_string() == *t; }
    for (v, _, t) in V_TALKOVERMODE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_TEMPORANGE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_TIMEMODE { ok &= v.to_string() == *t; }
    for (v, _, t) in V_VINYLSPEEDADJUST { ok &= v.to_string() == *t; }
    for (v, _, t) in V_WAVEFORM { ok &= v.to_string() == *t; }
    for (v, _, t) in V_WAVEFORMCOLOR { ok &= v.to_string() == *t; }
    for (v, _, t) in V_WAVEFORMCURRENTPOSITION { ok &= v.to_string() == *t; }
    for (v, _, t) in V_WAVEFORMDIVISIONS { ok &= v.to_string() == *t; }
    ok
}
/// labels of the options in the printed settings, in order of kind and option
pub const LABELS: [&[&str]; 4] = [&["Overview Waveform Type", "Waveform Color", "Key Display Format", "Waveform Current Position"], &["Channel Fader Curve", "Crossfader Curve", "Headphones Pre Eq", "Headphones Mono Split", "Beat FX Quantize", "Mic Low Cut", "Talk Over Mode", "Talk Over Level", "MIDI Channel", "MIDI Button Type", "Display Brightness", "Indicator Brightness", "Channel Fader Curve Long Fader"], &["On Air Display", "LCD Brightness", "Quantize", "Auto Cue Level", "Language", "Jog Ring Brightness", "Jog Ring Indicator", "Slip Flashing", "Disc Slot Illumination", "Eject Lock", "Sync", "Play Mode", "Quantize Beat Value", "Hotcue Autoload", "Hotcue Color", "Needle Lock", "Time Mode", "Jog Mode", "Auto Cue", "Master Tempo", "Tempo Range", "Phase Meter"], &["Vinyl Speed Adjust", "Jog Display Mode", "Pad Button Brightness", "Jog LCD Brightness", "Waveform Divisions", "Waveform", "Beat Jump Beat Value"]];

pub const TYPES: [SettingType; 4] = [SettingType::DevSetting, SettingType::DJMMySetting, SettingType::MySetting, SettingType::MySetting2];
pub const BRANDS: [&str; 4] = ["PIONEER DJ", "PioneerDJ", "PIONEER", "PIONEER"];
/// documented fixed data bytes: (position, value)
pub const FIXED: [&[(usize, u8)]; 4] = [
    &[(0, 0x78), (1, 0x56), (2, 0x34), (3, 0x12), (4, 1), (5, 0), (6, 0), (7, 0), (8, 1), (11, 1), (14, 0), (15, 0), (16, 0), (17, 0), (18, 0), (19, 0), (20, 0), (21, 0), (22, 0), (23, 0), (24, 0), (25, 0), (26, 0), (27, 0), (28, 0), (29, 0), (30, 0), (31, 0)],
    &[(25, 0), (26, 0), (27, 0), (28, 0), (29, 0), (30, 0), (31, 0), (32, 0), (33, 0), (34, 0), (35, 0), (36, 0), (37, 0), (38, 0), (39, 0), (40, 0), (41, 0), (42, 0), (43, 0), (44, 0), (45, 0), (46, 0), (47, 0), (48, 0), (49, 0), (50, 0), (51, 0)],
    &[(27, 0), (28, 0), (30, 0), (31, 0), (38, 0), (39, 0)],
    &[(5, 0), (6, 0), (7, 0), (8, 0), (9, 0), (13, 0), (14, 0), (15, 0), (16, 0), (17, 0), (18, 0), (19, 0), (20, 0), (21, 0), (22, 0), (23, 0), (24, 0), (25, 0), (26, 0), (27, 0), (28, 0), (29, 0), (30, 0), (31, 0), (32, 0), (33, 0), (34, 0), (35, 0), (36, 0), (37, 0), (38, 0), (39, 0)],
];
/// data bytes with no documented meaning and their value in a default file
pub const FREE: [&[(usize, u8)]; 4] = [
    &[],
    &[(0, 0x78), (1, 0x56), (2, 0x34), (3, 0x12), (4, 1), (5, 0), (6, 0), (7, 0), (8, 0x20), (9, 0), (10, 0), (11, 0)],
    &[(0, 0x78), (1, 0x56), (2, 0x34), (3, 0x12), (4, 2), (5, 0), (6, 0), (7, 0), (13, 1), (17, 1), (18, 1), (19, 1)],
    &[(11, 0x81)],
];
pub const HEAD: usize = 104;
pub fn padded(v: &mut Vec<u8>, t: &[u8]) { v.extend_from_slice(t); for _ in t.len()..32 { v.push(0); } }
/// A setting file with the documented default options and a zero checksum.
pub fn file(k: usize) -> Vec<u8> { file_with(k, BRANDS[k].as_bytes(), b"rekordbox", b"6.6.1") }
pub fn file_with(k: usize, brand: &[u8], software: &[u8], version: &[u8]) -> Vec<u8> {
    let mut v = vec![0x60, 0, 0, 0];
    padded(&mut v, brand); padded(&mut v, software); padded(&mut v, version);
    v.extend_from_slice(&[SIZE[k] as u8, 0, 0, 0]);
    let mut d = vec![0u8; SIZE[k]];
    for (p, x) in FIXED[k] { d[*p] = *x; }
    for (p, x) in FREE[k] { d[*p] = *x; }
    for i in 0..OPTIONS[k] { d[AT[k][i]] = DEFAULTS[k][i]; }
    v.extend_from_slice(&d);
    v.extend_from_slice(&[0; 4]);
    v
}
const fn crc_table() -> [u16; 256] {
    let mut t = [0u16; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = (i as u16) << 8;
        let mut j = 0;
        while j < 8 { c = if c & 0x8000 != 0 { c << 1 ^ 0x1021 } else { c << 1 }; j += 1; }
        t[i] = c;
        i += 1;
    }
    t
}
static CRC: [u16; 256] = crc_table();
/// CRC-16/XMODEM: polynomial 0x1021, start value 0, most significant bit first.
/// Written as the division of the message followed by 16 zero bits, so that terms over symbolic bytes compare equal to the library's.
pub fn crc(b: &[u8]) -> u16 {
    let mut c = 0u16;
    for x in b { c = (c << 8 | *x as u16) ^ CRC[(c >> 8) as usize]; }
    for _ in 0..2 { c = c << 8 ^ CRC[(c >> 8) as usize]; }
    c
}
/// The same checksum bit by bit, to check the table form against.
pub fn crc_bits(b: &[u8]) -> u16 {
    let mut c = 0u16;
    for x in b {
        c ^= (*x as u16) << 8;
        for _ in 0..8 { let top = c >> 15; c = c << 1 ^ (top.wrapping_neg() & 0x1021); }
    }
    c
}
/// what a written file must carry as checksum
pub fn expected_crc(k: usize, w: &[u8]) -> u16 { crc(&w[if k == 1 { 0 } else { HEAD }..HEAD + SIZE[k]]) }
/// Give `n` options from `from` on any documented value; the others keep their default or (`alt`) take one fixed other value.
pub fn vary(b: &mut [u8], k: usize, from: usize, n: usize, alt: bool) {
    for i in 0..OPTIONS[k] {
        let p = HEAD + AT[k][i];
        if i >= from && i < from + n { let x = crate::u8v("option"); crate::assume(valid(k, i, x)); b[p] = x; }
        else if alt { for d in 1..40 { let x = b[p].wrapping_add(d); if valid(k, i, x) { b[p] = x; break; } } }
    }
}
