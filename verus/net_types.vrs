//@item src/protocol/mod.rs | (?:pub )?type ProtocolID\b
//@item src/lib.rs | (?:pub )?type PartyID\b
//@item src/protocol/network.rs | (?:pub )?enum Recipient
//@item src/protocol/network.rs | (?:pub )?struct SendMessage
//@item src/protocol/network.rs | (?:pub )?struct ReceivedMessage
