From 9113a7b5097c6cdbf168ea5860ec123a798f8465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 01/18] fix: reading a bitmap with a huge numBits overflows or
 reserves memory up front

numBits comes straight from the wire. Close to 2^32 the rounding up to
whole words overflowed (a panic in debug builds, an empty bitmap in
release builds), and below that up to 512 MB were reserved before a
single word had been read.
---
 src/common/bit_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/bit_set.rs b/src/common/bit_set.rs
index 177ca66..44ae79d 100644
--- a/src/common/bit_set.rs
+++ b/src/common/bit_set.rs
@@ -34,9 +34,9 @@ impl<'a, C: Context> Readable<'a, C> for BitSetRef {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let number_of_bits = reader.read_u32()?;
-        let number_of_bytes = (number_of_bits + 31) / 32;
+        let number_of_bytes = number_of_bits / 32 + u32::from(number_of_bits % 32 != 0);
 
-        let mut bit_vec = BitVec::with_capacity(number_of_bits as usize);
+        let mut bit_vec = BitVec::new();
         unsafe {
             let inner = bit_vec.storage_mut();
             for _ in 0..number_of_bytes {
-- 
2.43.0


From d9496418d8a8174270bc780cfe88109b7f6ba7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 02/18] fix: a bitmap read from the wire reported no members

The words were pushed into the storage of the bit vector without setting
its length, so iterating the decoded set or looking up a member found
nothing although the bits were there.
---
 src/common/bit_set.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/bit_set.rs b/src/common/bit_set.rs
index 44ae79d..c39a171 100644
--- a/src/common/bit_set.rs
+++ b/src/common/bit_set.rs
@@ -42,6 +42,13 @@ impl<'a, C: Context> Readable<'a, C> for BitSetRef {
             for _ in 0..number_of_bytes {
                 inner.push(reader.read_u32()?);
             }
+            if number_of_bits % 32 != 0 {
+                // bits past numBits are not a part of the set
+                if let Some(last) = inner.last_mut() {
+                    *last &= (1 << (number_of_bits % 32)) - 1;
+                }
+            }
+            bit_vec.set_len(number_of_bits as usize);
         }
 
         Ok(BitSetRef(BitSet::from_bit_vec(bit_vec)))
-- 
2.43.0


From 3325835f5d8737f0d385a20e6e4f03841b13389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 03/18] fix: iterating a received number set panics when base
 plus offset overflows

The base and the bitmap both come from the wire. A member that cannot be
represented ends the iteration, as every later one is out of range too.
---
 src/common/ranged_bit_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/ranged_bit_set.rs b/src/common/ranged_bit_set.rs
index 2430387..314d5ae 100644
--- a/src/common/ranged_bit_set.rs
+++ b/src/common/ranged_bit_set.rs
@@ -51,7 +51,7 @@ where
                 None => return None,
                 Some((_, false)) => {}
                 Some((i, true)) => {
-                    return Some(B::from_usize(i).unwrap().checked_add(&self.base).unwrap());
+                    return B::from_usize(i).and_then(|offset| offset.checked_add(&self.base));
                 }
             }
         }
-- 
2.43.0


From aef4059f8a904d6db051c3332caeb2dce9b278a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 04/18] fix: parameters are not padded to a multiple of four
 bytes

The padding was length % 4 instead of what is missing to the next
multiple of 4, so a value of 1 or 3 bytes was written with a length that
is not a multiple of 4 and could not be read back. Adding the padding to
the u16 length also overflowed for lengths of 65534 and 65535.
---
 src/messages/submessage_elements/parameter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 096de34..807236d 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -14,10 +14,10 @@ impl<'a, C: Context> Readable<'a, C> for Parameter {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let parameter_id: ParameterId = reader.read_value()?;
-        let length = reader.read_u16()?;
-        let alignment = length % 4;
+        let length = usize::from(reader.read_u16()?);
+        let alignment = (4 - length % 4) % 4;
 
-        let mut value = Vec::with_capacity((length + alignment) as usize);
+        let mut value = Vec::with_capacity(length + alignment);
 
         for _ in 0..(length + alignment) {
             let byte = reader.read_u8()?;
@@ -42,7 +42,7 @@ impl<C: Context> Writable<C> for Parameter {
         writer.write_value(&self.parameter_id)?;
 
         let length = self.value.len();
-        let alignment = length % 4;
+        let alignment = (4 - length % 4) % 4;
         writer.write_u16((length + alignment) as u16)?;
 
         for byte in &self.value {
-- 
2.43.0


From 36812d79c799b468cb48c40889dfbb8550ed9b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 05/18] fix: a parameter with an empty value cannot be read

Such a parameter, a sentinel for example, is 4 bytes long, but reading
one asked for at least 8 bytes of input.
---
 src/messages/submessage_elements/parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 807236d..3f31556 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -32,7 +32,7 @@ impl<'a, C: Context> Readable<'a, C> for Parameter {
 
     #[inline]
     fn minimum_bytes_needed() -> usize {
-        8
+        4
     }
 }
 
-- 
2.43.0


From 3c4573d243b384b5aa3cd33abd1c1aa1082dc0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 06/18] fix: a parameter value over 65532 bytes is written with
 a truncated length

The length field has 16 bits. A longer value was followed by all of its
bytes but announced with its length modulo 65536. Such a value cannot be
represented, so writing it fails now.
---
 src/messages/submessage_elements/parameter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 3f31556..8acd33e 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -43,6 +43,9 @@ impl<C: Context> Writable<C> for Parameter {
 
         let length = self.value.len();
         let alignment = (4 - length % 4) % 4;
+        if length + alignment > usize::from(std::u16::MAX) {
+            return Err(speedy::Error::custom("parameter value is too long").into());
+        }
         writer.write_u16((length + alignment) as u16)?;
 
         for byte in &self.value {
-- 
2.43.0


From 4b68b5764aaefbfeab687cab97595e380be5c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 07/18] fix: reading a locator list reserves memory for any
 announced length

A locator did not tell how many bytes it needs at least, so a list was
not checked against the size of the input and room for the announced
number of locators was reserved. Four bytes of an InfoReply submessage
could request 100 GB and abort the process.
---
 src/structure/locator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/structure/locator.rs b/src/structure/locator.rs
index ad64bb0..fa5d345 100644
--- a/src/structure/locator.rs
+++ b/src/structure/locator.rs
@@ -88,6 +88,11 @@ impl<'a, C: Context> Readable<'a, C> for Locator_t {
         }
         Ok(locator)
     }
+
+    #[inline]
+    fn minimum_bytes_needed() -> usize {
+        24
+    }
 }
 
 impl<C: Context> Writable<C> for Locator_t {
-- 
2.43.0


From bc945306d13824d63513cd33d8f500ecd52eb569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 08/18] fix: converting a negative Time_t to SystemTime panics

A negative number of seconds, which any InfoTimestamp can carry, was
reinterpreted as a huge unsigned one and overflowed SystemTime.
---
 src/structure/time.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/structure/time.rs b/src/structure/time.rs
index 052331f..f52a4ee 100644
--- a/src/structure/time.rs
+++ b/src/structure/time.rs
@@ -52,6 +52,7 @@ impl TryFrom<Time_t> for SystemTime {
     fn try_from(time: Time_t) -> Result<Self, Self::Error> {
         match time {
             Time_t::TIME_INVALID => Err("Conversion from Time_t::TIME_INVALID"),
+            Time_t { seconds, .. } if seconds < 0 => Err("Conversion from negative Time_t"),
             _ => {
                 let fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;
                 Ok(std::time::UNIX_EPOCH + Duration::new(time.seconds as u64, fraction as u32))
-- 
2.43.0


From 1e6f42061611744c8a5ff9ce2f55e84db1e91fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 09/18] fix: a SystemTime after 2038 becomes an unrelated
 Time_t

The seconds were truncated to 32 bits. Like a time before the epoch, a
time that cannot be represented is TIME_INVALID now.
---
 src/structure/time.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/structure/time.rs b/src/structure/time.rs
index f52a4ee..75b06c1 100644
--- a/src/structure/time.rs
+++ b/src/structure/time.rs
@@ -35,10 +35,11 @@ impl From<SystemTime> for Time_t {
     fn from(sys_time: SystemTime) -> Self {
         sys_time
             .duration_since(std::time::UNIX_EPOCH)
+            .ok()
             .and_then(|dur_since_epoch| {
                 let fraction = (i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC;
-                Ok(Time_t {
-                    seconds: dur_since_epoch.as_secs() as i32,
+                Some(Time_t {
+                    seconds: i32::try_from(dur_since_epoch.as_secs()).ok()?,
                     fraction: fraction as u32,
                 })
             })
-- 
2.43.0


From f89c7567fbf271d83f2844f93c0d27b1b91654f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 10/18] fix: converting DURATION_INVALID to Duration panics

The negative seconds become the largest number of seconds a Duration can
hold, and the carry from the fraction overflowed it.
---
 src/structure/duration.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/structure/duration.rs b/src/structure/duration.rs
index 0246417..726434d 100644
--- a/src/structure/duration.rs
+++ b/src/structure/duration.rs
@@ -34,7 +34,9 @@ impl From<Duration> for Duration_t {
 
 impl From<Duration_t> for Duration {
     fn from(duration: Duration_t) -> Self {
-        Duration::new(duration.seconds as u64, duration.fraction)
+        Duration::from_secs(duration.seconds as u64)
+            .checked_add(Duration::from_nanos(duration.fraction.into()))
+            .unwrap_or(Duration::MAX)
     }
 }
 
-- 
2.43.0


From 8455f17a69e316c8c68155e232f9b5371efda8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 11/18] fix: a long Duration becomes a negative or unrelated
 Duration_t

The seconds were truncated to 32 bits. A Duration over the range of
Duration_t is DURATION_INFINITE now.
---
 src/structure/duration.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/structure/duration.rs b/src/structure/duration.rs
index 726434d..0271d73 100644
--- a/src/structure/duration.rs
+++ b/src/structure/duration.rs
@@ -25,6 +25,9 @@ impl Duration_t {
 
 impl From<Duration> for Duration_t {
     fn from(duration: Duration) -> Self {
+        if duration.as_secs() > std::i32::MAX as u64 {
+            return Duration_t::DURATION_INFINITE;
+        }
         Duration_t {
             seconds: duration.as_secs() as i32,
             fraction: duration.subsec_nanos() as u32,
-- 
2.43.0


From 72d5d734d2bd2430123cbde468d1d60979830ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 12/18] fix: decoding an incomplete message panics

The decoder split the length of the header or of the submessage off the
buffer without looking whether that much had been received. It asks for
more data now, as the Decoder contract has it, and leaves the buffer as
it is.
---
 src/messages/receiver.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 3b621dd..ed655f1 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -88,6 +88,30 @@ impl Decoder for MessageReceiver {
             }
         };
 
+        // Nothing is consumed until the whole header or submessage is there
+        match self.state {
+            DeserializationState::ReadingHeader
+                if bytes.len() < <Header as Readable<Endianness>>::minimum_bytes_needed() =>
+            {
+                return Ok(None)
+            }
+            DeserializationState::ReadingSubmessage => {
+                let header_length =
+                    <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed();
+                if bytes.len() < header_length {
+                    return Ok(None);
+                }
+                let submessage_header = SubmessageHeader::read_from_buffer_owned_with_ctx(
+                    Endianness::NATIVE,
+                    &bytes[..header_length],
+                )?;
+                if bytes.len() - header_length < submessage_header.submessage_length.into() {
+                    return Ok(None);
+                }
+            }
+            _ => {}
+        }
+
         match self.state {
             DeserializationState::ReadingHeader => Header::read_from_buffer_owned_with_ctx(
                 Endianness::NATIVE,
-- 
2.43.0


From 39a9757080b34b8d6dc6d4dcbc66ab21384c74f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 13/18] fix: the content of an unknown submessage is not
 skipped

Only its header was consumed, so its content was interpreted as the
submessages that follow.
---
 src/messages/receiver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index ed655f1..abee091 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -306,6 +306,8 @@ impl Decoder for MessageReceiver {
                             "Received unknown submessage with id {:?}, skipping",
                             submessage_header.submessage_id
                         );
+                        use crate::bytes::Buf;
+                        bytes.advance(submessage_header.submessage_length.into());
                         Ok(None)
                     }
                 })
-- 
2.43.0


From 9f7fe3914b40c9679614d873250c3e7efb7e1a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 14/18] fix: the content of an invalidating InfoTimestamp is
 not skipped

The submessage ends where its header says. When it has the InvalidateFlag
and a length that is not zero, its content was interpreted as the
submessages that follow.
---
 src/messages/receiver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index abee091..e225e86 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -291,6 +291,8 @@ impl Decoder for MessageReceiver {
                             self.receiver.have_timestamp = true;
                             self.receiver.timestamp = timestamp;
                         } else {
+                            use crate::bytes::Buf;
+                            bytes.advance(submessage_header.submessage_length.into());
                             self.receiver.have_timestamp = false;
                         }
 
-- 
2.43.0


From c4cce9f1187246ac4fc3080b2cf48bb452594315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 15/18] fix: decoding an InfoReplyIp4 that is too short panics

Its locators were split off without looking at the length of the
submessage.
---
 src/messages/receiver.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index e225e86..6186a1e 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -260,21 +260,20 @@ impl Decoder for MessageReceiver {
                         let mut bytes = bytes.split_to(submessage_header.submessage_length.into());
                         let unicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(
-                                <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(),
-                            ),
+                            &bytes,
                         )?;
+                        use crate::bytes::Buf;
+                        bytes.advance(
+                            <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(),
+                        );
                         self.receiver.unicast_reply_locator_list = vec![unicast_locator.into()];
 
                         self.receiver.multicast_reply_locator_list =
                             if submessage_header.flags.is_flag_set(0x02) {
                                 let multicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
-                                submessage_header.flags.endianness_flag(),
-                                &bytes.split_to(
-                                    <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(
-                                    ),
-                                ),
-                            )?;
+                                    submessage_header.flags.endianness_flag(),
+                                    &bytes,
+                                )?;
                                 vec![multicast_locator.into()]
                             } else {
                                 vec![]
-- 
2.43.0


From 9726e06495ca16320692749c6ae2f9b60781f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 16/18] fix: the last submessage of a message is decoded from
 no bytes at all

A submessage that announces the length 0 (other than InfoTimestamp and
Pad) extends to the end of the message. It was taken for empty, so
decoding it failed, and its content was read as the next message.
---
 src/messages/receiver.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 6186a1e..49221ad 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -142,20 +142,22 @@ impl Decoder for MessageReceiver {
                     ),
                 )
                 .and_then(|submessage_header| {
+                    let mut submessage_length = submessage_header.submessage_length.into();
                     if submessage_header.submessage_length == 0
                         && submessage_header.submessage_id != SubmessageKind::INFO_TS
                         && submessage_header.submessage_id != SubmessageKind::PAD
                     {
-                        // This is a last submessage
+                        // This is a last submessage, it extends to the end of the message
+                        submessage_length = bytes.len();
                         self.state = DeserializationState::ReadingHeader;
                     }
-                    Ok(submessage_header)
+                    Ok((submessage_header, submessage_length))
                 })
-                .and_then(|submessage_header| match submessage_header.submessage_id {
+                .and_then(|(submessage_header, submessage_length)| match submessage_header.submessage_id {
                     SubmessageKind::ACKNACK => {
                         let ack_nack = AckNack::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(submessage_length),
                         )?;
                         Ok(Some(EntitySubmessage::AckNack(
                             ack_nack,
@@ -171,14 +173,14 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::GAP => {
                         let gap = Gap::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(submessage_length),
                         )?;
                         Ok(Some(EntitySubmessage::Gap(gap)))
                     }
                     SubmessageKind::NACK_FRAG => {
                         let nack_frag = NackFrag::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(submessage_length),
                         )?;
 
                         Ok(Some(EntitySubmessage::NackFrag(nack_frag)))
@@ -186,7 +188,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::HEARTBEAT => {
                         let heartbeat = Heartbeat::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(submessage_length),
                         )?;
 
                         Ok(Some(EntitySubmessage::Heartbeat(
@@ -197,7 +199,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::HEARTBEAT_FRAG => {
                         let heartbeat_frag = HeartbeatFrag::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(submessage_length),
                         )?;
 
                         Ok(Some(EntitySubmessage::HeartbeatFrag(heartbeat_frag)))
@@ -205,7 +207,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::INFO_SRC => {
                         let info_src = InfoSource::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(submessage_length),
                         )?;
                         self.receiver.source_guid_prefix = info_src.guid_prefix;
                         self.receiver.source_version = info_src.protocol_version;
@@ -220,7 +222,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::INFO_DST => {
                         let info_dst = InfoDestination::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes.split_to(submessage_length),
                         )?;
 
                         if info_dst.guid_prefix != GuidPrefix_t::GUIDPREFIX_UNKNOWN {
@@ -230,7 +232,7 @@ impl Decoder for MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY => {
-                        let mut bytes = bytes.split_to(submessage_header.submessage_length.into());
+                        let mut bytes = bytes.split_to(submessage_length);
                         let (unicast_locator_list, read_bytes) =
                             LocatorList_t::read_with_length_from_buffer_with_ctx(
                                 submessage_header.flags.endianness_flag(),
@@ -257,7 +259,7 @@ impl Decoder for MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY_IP4 => {
-                        let mut bytes = bytes.split_to(submessage_header.submessage_length.into());
+                        let mut bytes = bytes.split_to(submessage_length);
                         let unicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                             submessage_header.flags.endianness_flag(),
                             &bytes,
@@ -285,13 +287,13 @@ impl Decoder for MessageReceiver {
                         if !submessage_header.flags.is_flag_set(0x02) {
                             let timestamp = Time_t::read_from_buffer_owned_with_ctx(
                                 submessage_header.flags.endianness_flag(),
-                                &bytes.split_to(submessage_header.submessage_length.into()),
+                                &bytes.split_to(submessage_length),
                             )?;
                             self.receiver.have_timestamp = true;
                             self.receiver.timestamp = timestamp;
                         } else {
                             use crate::bytes::Buf;
-                            bytes.advance(submessage_header.submessage_length.into());
+                            bytes.advance(submessage_length);
                             self.receiver.have_timestamp = false;
                         }
 
@@ -299,7 +301,7 @@ impl Decoder for MessageReceiver {
                     }
                     SubmessageKind::PAD => {
                         use crate::bytes::Buf;
-                        bytes.advance(submessage_header.submessage_length.into());
+                        bytes.advance(submessage_length);
                         Ok(None)
                     }
                     _ => {
@@ -308,7 +310,7 @@ impl Decoder for MessageReceiver {
                             submessage_header.submessage_id
                         );
                         use crate::bytes::Buf;
-                        bytes.advance(submessage_header.submessage_length.into());
+                        bytes.advance(submessage_length);
                         Ok(None)
                     }
                 })
-- 
2.43.0


From 9e46edeef3a0405f0afe09110fd6720d8f779625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 17/18] fix: a message is interpreted with the state left by
 the previous one

The destination, the reply locators and the timestamp set by the
submessages of a message were kept when the header of the next message
was received.
---
 src/messages/receiver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 49221ad..94fdcfb 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -62,6 +62,7 @@ enum DeserializationState {
 }
 
 pub struct MessageReceiver {
+    locator_kind: LocatorKind_t,
     receiver: Receiver,
     state: DeserializationState,
 }
@@ -69,6 +70,7 @@ pub struct MessageReceiver {
 impl MessageReceiver {
     pub fn new(locator_kind: LocatorKind_t) -> Self {
         MessageReceiver {
+            locator_kind,
             receiver: Receiver::new(locator_kind),
             state: DeserializationState::ReadingHeader,
         }
@@ -119,6 +121,7 @@ impl Decoder for MessageReceiver {
             )
             .and_then(validate_header)
             .and_then(|header: Header| {
+                self.receiver = Receiver::new(self.locator_kind);
                 self.receiver.source_guid_prefix = header.guid_prefix;
                 self.receiver.source_version = header.protocol_version;
                 self.receiver.source_vendor_id = header.vendor_id;
-- 
2.43.0


From d3ce1018ab60759a9ef5202761f31ea85385fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 18/18] verif: hooks for the contract checks, behind
 cfg(rtps_verif)

With --cfg rtps_verif the modules whose contracts are checked include
the harnesses from the directory RTPS_VERIF_DIR names. Without it nothing
changes.
---
 src/behavior/reader_locator.rs                | 5 +++++
 src/behavior/stateful_writer.rs               | 5 +++++
 src/behavior/stateless_writer.rs              | 5 +++++
 src/lib.rs                                    | 6 ++++++
 src/messages/receiver.rs                      | 5 +++++
 src/messages/submessage_elements/parameter.rs | 5 +++++
 src/structure/history_cache.rs                | 5 +++++
 7 files changed, 36 insertions(+)

diff --git a/src/behavior/reader_locator.rs b/src/behavior/reader_locator.rs
index 7a3593e..1e79fea 100644
--- a/src/behavior/reader_locator.rs
+++ b/src/behavior/reader_locator.rs
@@ -49,3 +49,8 @@ impl ReaderLocator {
         unimplemented!();
     }
 }
+
+#[cfg(rtps_verif)]
+pub mod verif {
+    include!(concat!(env!("RTPS_VERIF_DIR"), "/reader_locator.rs"));
+}
diff --git a/src/behavior/stateful_writer.rs b/src/behavior/stateful_writer.rs
index 4efabfe..e6308c7 100644
--- a/src/behavior/stateful_writer.rs
+++ b/src/behavior/stateful_writer.rs
@@ -78,3 +78,8 @@ impl StatefulWriter {
 
 #[cfg(test)]
 mod tests {}
+
+#[cfg(rtps_verif)]
+pub mod verif {
+    include!(concat!(env!("RTPS_VERIF_DIR"), "/stateful_writer.rs"));
+}
diff --git a/src/behavior/stateless_writer.rs b/src/behavior/stateless_writer.rs
index 1b8a49f..61ab2d9 100644
--- a/src/behavior/stateless_writer.rs
+++ b/src/behavior/stateless_writer.rs
@@ -97,3 +97,8 @@ impl StatelessWriter {
 
 #[cfg(test)]
 mod tests {}
+
+#[cfg(rtps_verif)]
+pub mod verif {
+    include!(concat!(env!("RTPS_VERIF_DIR"), "/stateless_writer.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 8489566..a012f95 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,7 @@
 #![allow(dead_code)]
 #![allow(non_camel_case_types)]
 #![allow(non_upper_case_globals)]
+#![allow(unexpected_cfgs)]
 
 extern crate bit_set;
 extern crate bit_vec;
@@ -20,3 +21,8 @@ mod dds;
 mod discovery;
 mod messages;
 mod structure;
+
+#[cfg(rtps_verif)]
+pub mod verif {
+    include!(concat!(env!("RTPS_VERIF_DIR"), "/root.rs"));
+}
diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 94fdcfb..96e0663 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -678,3 +678,8 @@ mod tests {
         }
     );
 }
+
+#[cfg(rtps_verif)]
+pub mod verif {
+    include!(concat!(env!("RTPS_VERIF_DIR"), "/receiver.rs"));
+}
diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 8acd33e..638552f 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -122,3 +122,8 @@ mod tests {
               0xFF, 0xFF, 0xFF, 0xFF]
     });
 }
+
+#[cfg(rtps_verif)]
+pub mod verif {
+    include!(concat!(env!("RTPS_VERIF_DIR"), "/parameter.rs"));
+}
diff --git a/src/structure/history_cache.rs b/src/structure/history_cache.rs
index 743d6d8..320a16a 100644
--- a/src/structure/history_cache.rs
+++ b/src/structure/history_cache.rs
@@ -160,3 +160,8 @@ mod tests {
         assert_eq!(&SequenceNumber_t::from(7), biggest_cache_change.unwrap());
     }
 }
+
+#[cfg(rtps_verif)]
+pub mod verif {
+    include!(concat!(env!("RTPS_VERIF_DIR"), "/history_cache.rs"));
+}
-- 
2.43.0

