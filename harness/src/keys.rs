//! All generic keys by name (generated once from the public enum).
use lofty::tag::ItemKey;

pub const ALL: &[(&str, ItemKey)] = &[
    ("AlbumTitle", ItemKey::AlbumTitle),
    ("SetSubtitle", ItemKey::SetSubtitle),
    ("ShowName", ItemKey::ShowName),
    ("ContentGroup", ItemKey::ContentGroup),
    ("TrackTitle", ItemKey::TrackTitle),
    ("TrackSubtitle", ItemKey::TrackSubtitle),
    ("OriginalAlbumTitle", ItemKey::OriginalAlbumTitle),
    ("OriginalArtist", ItemKey::OriginalArtist),
    ("OriginalLyricist", ItemKey::OriginalLyricist),
    ("AlbumTitleSortOrder", ItemKey::AlbumTitleSortOrder),
    ("AlbumArtistSortOrder", ItemKey::AlbumArtistSortOrder),
    ("TrackTitleSortOrder", ItemKey::TrackTitleSortOrder),
    ("TrackArtistSortOrder", ItemKey::TrackArtistSortOrder),
    ("ShowNameSortOrder", ItemKey::ShowNameSortOrder),
    ("ComposerSortOrder", ItemKey::ComposerSortOrder),
    ("AlbumArtist", ItemKey::AlbumArtist),
    ("AlbumArtists", ItemKey::AlbumArtists),
    ("TrackArtist", ItemKey::TrackArtist),
    ("TrackArtists", ItemKey::TrackArtists),
    ("Arranger", ItemKey::Arranger),
    ("Writer", ItemKey::Writer),
    ("Composer", ItemKey::Composer),
    ("Conductor", ItemKey::Conductor),
    ("Director", ItemKey::Director),
    ("Engineer", ItemKey::Engineer),
    ("Lyricist", ItemKey::Lyricist),
    ("MixDj", ItemKey::MixDj),
    ("MixEngineer", ItemKey::MixEngineer),
    ("Performer", ItemKey::Performer),
    ("Producer", ItemKey::Producer),
    ("Publisher", ItemKey::Publisher),
    ("Label", ItemKey::Label),
    ("InternetRadioStationName", ItemKey::InternetRadioStationName),
    ("InternetRadioStationOwner", ItemKey::InternetRadioStationOwner),
    ("Remixer", ItemKey::Remixer),
    ("DiscNumber", ItemKey::DiscNumber),
    ("DiscTotal", ItemKey::DiscTotal),
    ("TrackNumber", ItemKey::TrackNumber),
    ("TrackTotal", ItemKey::TrackTotal),
    ("Popularimeter", ItemKey::Popularimeter),
    ("ParentalAdvisory", ItemKey::ParentalAdvisory),
    ("RecordingDate", ItemKey::RecordingDate),
    ("Year", ItemKey::Year),
    ("ReleaseDate", ItemKey::ReleaseDate),
    ("OriginalReleaseDate", ItemKey::OriginalReleaseDate),
    ("Isrc", ItemKey::Isrc),
    ("Barcode", ItemKey::Barcode),
    ("AcoustId", ItemKey::AcoustId),
    ("AcoustIdFingerprint", ItemKey::AcoustIdFingerprint),
    ("CatalogNumber", ItemKey::CatalogNumber),
    ("Work", ItemKey::Work),
    ("Movement", ItemKey::Movement),
    ("MovementNumber", ItemKey::MovementNumber),
    ("MovementTotal", ItemKey::MovementTotal),
    ("ReleaseCountry", ItemKey::ReleaseCountry),
    ("MusicBrainzRecordingId", ItemKey::MusicBrainzRecordingId),
    ("MusicBrainzTrackId", ItemKey::MusicBrainzTrackId),
    ("MusicBrainzReleaseId", ItemKey::MusicBrainzReleaseId),
    ("MusicBrainzReleaseGroupId", ItemKey::MusicBrainzReleaseGroupId),
    ("MusicBrainzArtistId", ItemKey::MusicBrainzArtistId),
    ("MusicBrainzReleaseArtistId", ItemKey::MusicBrainzReleaseArtistId),
    ("MusicBrainzWorkId", ItemKey::MusicBrainzWorkId),
    ("MusicBrainzReleaseType", ItemKey::MusicBrainzReleaseType),
    ("FlagCompilation", ItemKey::FlagCompilation),
    ("FlagPodcast", ItemKey::FlagPodcast),
    ("FileOwner", ItemKey::FileOwner),
    ("TaggingTime", ItemKey::TaggingTime),
    ("Length", ItemKey::Length),
    ("OriginalFileName", ItemKey::OriginalFileName),
    ("OriginalMediaType", ItemKey::OriginalMediaType),
    ("EncodedBy", ItemKey::EncodedBy),
    ("EncoderSoftware", ItemKey::EncoderSoftware),
    ("EncoderSettings", ItemKey::EncoderSettings),
    ("EncodingTime", ItemKey::EncodingTime),
    ("ReplayGainAlbumGain", ItemKey::ReplayGainAlbumGain),
    ("ReplayGainAlbumPeak", ItemKey::ReplayGainAlbumPeak),
    ("ReplayGainTrackGain", ItemKey::ReplayGainTrackGain),
    ("ReplayGainTrackPeak", ItemKey::ReplayGainTrackPeak),
    ("R128TrackGain", ItemKey::R128TrackGain),
    ("R128AlbumGain", ItemKey::R128AlbumGain),
    ("AudioFileUrl", ItemKey::AudioFileUrl),
    ("AudioSourceUrl", ItemKey::AudioSourceUrl),
    ("CommercialInformationUrl", ItemKey::CommercialInformationUrl),
    ("CopyrightUrl", ItemKey::CopyrightUrl),
    ("TrackArtistUrl", ItemKey::TrackArtistUrl),
    ("RadioStationUrl", ItemKey::RadioStationUrl),
    ("PaymentUrl", ItemKey::PaymentUrl),
    ("PublisherUrl", ItemKey::PublisherUrl),
    ("Genre", ItemKey::Genre),
    ("InitialKey", ItemKey::InitialKey),
    ("Color", ItemKey::Color),
    ("Mood", ItemKey::Mood),
    ("Bpm", ItemKey::Bpm),
    ("IntegerBpm", ItemKey::IntegerBpm),
    ("CopyrightMessage", ItemKey::CopyrightMessage),
    ("License", ItemKey::License),
    ("PodcastDescription", ItemKey::PodcastDescription),
    ("PodcastSeriesCategory", ItemKey::PodcastSeriesCategory),
    ("PodcastUrl", ItemKey::PodcastUrl),
    ("PodcastGlobalUniqueId", ItemKey::PodcastGlobalUniqueId),
    ("PodcastKeywords", ItemKey::PodcastKeywords),
    ("Comment", ItemKey::Comment),
    ("Description", ItemKey::Description),
    ("Language", ItemKey::Language),
    ("Script", ItemKey::Script),
    ("Lyrics", ItemKey::Lyrics),
    ("UnsyncLyrics", ItemKey::UnsyncLyrics),
    ("AppleXid", ItemKey::AppleXid),
    ("AppleId3v2ContentGroup", ItemKey::AppleId3v2ContentGroup),
];

pub fn key(n: &str) -> ItemKey {
    ALL.iter().find(|(k, _)| *k == n).unwrap_or_else(|| panic!("HARNESS: no key {n}")).1
}

pub fn name(k: ItemKey) -> String {
    ALL.iter().find(|(_, v)| *v == k).map_or_else(|| format!("{k:?}"), |(n, _)| (*n).to_string())
}
