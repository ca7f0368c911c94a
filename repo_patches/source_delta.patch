From f17c272ee64e243a38e925e685253167a4453a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 001/102] fix: UTCTime <= and >= compare nanoseconds when the
 seconds are equal

---
 common/utctime.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index ea2fcf5..8574771 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -28,8 +28,8 @@ bool UTCTime::operator>(const UTCTime& other) const
 }
 bool UTCTime::operator>=(const UTCTime& other) const
 {
-    return (sec >= other.sec) ? true
-                              : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
+    return (sec > other.sec) ? true
+                             : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
 }
 bool UTCTime::operator<(const UTCTime& other) const
 {
@@ -38,8 +38,8 @@ bool UTCTime::operator<(const UTCTime& other) const
 }
 bool UTCTime::operator<=(const UTCTime& other) const
 {
-    return (sec <= other.sec) ? true
-                              : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
+    return (sec < other.sec) ? true
+                             : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
 }
 
 bool UTCTime::operator==(const UTCTime& other) const
-- 
2.43.0


From 98a14085f1b483f06c7fd3163a5d57fad1bea79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 002/102] fix: convert the milliseconds of a GPS/GLONASS time
 of week to nanoseconds, in 64 bits

---
 common/utctime.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 8574771..31976f5 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -199,8 +199,8 @@ UTCTime UTCTime::now()
 UTCTime UTCTime::fromGPS(int week, int tow_ms)
 {
     UTCTime out;
-    out.sec = week * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.sec = (int64_t)week * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
@@ -237,8 +237,8 @@ UTCTime UTCTime::fromGalileo(int week, int tow_ms)
 UTCTime UTCTime::fromGlonass(int week, int tow_ms)
 {
     UTCTime out;
-    out.sec = int64_t(week * SEC_IN_WEEK) + tow_ms / 1000 + GLO_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.sec = (int64_t)week * SEC_IN_WEEK + tow_ms / 1000 + GLO_UTC_OFFSET;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
-- 
2.43.0


From a0748bb9e083850f2772adb2e554f96d78d8afa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 003/102] fix: instants built from or moved by a real number of
 seconds are exact and normalised

---
 common/utctime.cxx | 10 +++++-----
 common/utctime.h   |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 31976f5..c9b9b86 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -95,14 +95,14 @@ UTCTime UTCTime::operator+(double sec_) const
 {
     UTCTime out;
     out.nsec = nsec + (int64_t)(sec_ * E9) % E9;
-    out.sec = sec + (int64_t)sec_;
+    out.sec = sec + (int64_t)(sec_ * E9) / E9;
     out.wrapNsec();
     return out;
 }
 UTCTime& UTCTime::operator+=(double sec_)
 {
     nsec = nsec + (int64_t)(sec_ * E9) % E9;
-    sec = sec + (int64_t)sec_;
+    sec = sec + (int64_t)(sec_ * E9) / E9;
     wrapNsec();
     return *this;
 }
@@ -123,14 +123,14 @@ UTCTime UTCTime::operator-(double sec_) const
 {
     UTCTime out;
     out.nsec = nsec - (int64_t)(sec_ * E9) % E9;
-    out.sec = sec - (int64_t)sec_;
+    out.sec = sec - (int64_t)(sec_ * E9) / E9;
     out.wrapNsec();
     return out;
 }
 UTCTime& UTCTime::operator-=(double sec_)
 {
     nsec = nsec - (int64_t)(sec_ * E9) % E9;
-    sec = sec - (int64_t)sec_;
+    sec = sec - (int64_t)(sec_ * E9) / E9;
     wrapNsec();
     return *this;
 }
@@ -151,7 +151,7 @@ UTCTime UTCTime::Random()
 {
     UTCTime out;
     out.sec = rand();
-    out.nsec = rand();
+    out.nsec = rand() % E9;
     return out;
 }
 
diff --git a/common/utctime.h b/common/utctime.h
index 0f239ae..499646b 100644
--- a/common/utctime.h
+++ b/common/utctime.h
@@ -49,11 +49,11 @@ class UTCTime
     static constexpr int BD_UTC_OFFSET = GPS_UTC_OFFSET + GPS_BEIDOU_OFFSET;
 
     constexpr UTCTime(const int64_t _sec, const int64_t _nsec)
-        : sec(_sec + _nsec / E9), nsec(_nsec % E9)
+        : sec(_sec + _nsec / E9 - (_nsec % E9 < 0)), nsec((_nsec % E9 + E9) % E9)
     {
     }
 
-    constexpr UTCTime(const double _sec) : sec((int64_t)_sec), nsec((int64_t)(_sec * E9) % E9) {}
+    constexpr UTCTime(const double _sec) : UTCTime(0, (int64_t)(_sec * E9)) {}
 
     UTCTime();
 
-- 
2.43.0


From 222b6cbfc8df8c9780da5f62716c17e3d5229944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 004/102] fix: GLONASS time of day resolves to the day closest
 to the reference

---
 common/utctime.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index c9b9b86..accf11e 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -213,6 +213,13 @@ UTCTime UTCTime::fromGlonassTimeOfDay(const UTCTime& ref, int tod_ms)
     int glonass_tow_ms = (glonass_day * SEC_IN_DAY) * 1000 + tod_ms;
 
     UTCTime out = UTCTime::fromGlonass(glonass_week, glonass_tow_ms);
+
+    // the closest instant with this time of day may be on the day before or after
+    const double dt = (out - ref).toSec();
+    if (dt > SEC_IN_DAY / 2)
+        out -= SEC_IN_DAY;
+    else if (dt < -SEC_IN_DAY / 2)
+        out += SEC_IN_DAY;
     return out;
 }
 
-- 
2.43.0


From 5605fbff7ef6e5edb47e740370e3bab30e20b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 005/102] fix: print the milliseconds of an instant with
 leading zeros

---
 common/utctime.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index accf11e..25ebf1e 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -1,5 +1,7 @@
 #include "common/utctime.h"
 
+#include <iomanip>
+
 #include "common/quantized_time.h"
 
 namespace mc {
@@ -285,7 +287,8 @@ std::string UTCTime::str() const
 
     std::stringstream ss;
     ss << 1900 + date->tm_year << "/" << 1 + date->tm_mon << "/" << date->tm_mday << " "
-       << date->tm_hour << ":" << date->tm_min << ":" << date->tm_sec << "." << nsec / 1'000'000;
+       << date->tm_hour << ":" << date->tm_min << ":" << date->tm_sec << "." << std::setfill('0')
+       << std::setw(3) << nsec / 1'000'000;
 
     return ss.str();
 }
@@ -307,17 +310,19 @@ std::ostream& operator<<(std::ostream& os, const UTCTime& t)
 {
     time_t time(t.sec);
     tm* date = gmtime(&time);
+    const char fill = os.fill();
 
     if (date->tm_year == 70)
     {
-        os << t.sec << "." << t.nsec / 1'000'000;
+        os << t.sec << "." << std::setfill('0') << std::setw(3) << t.nsec / 1'000'000;
     }
     else
     {
         os << 1900 + date->tm_year << "/" << 1 + date->tm_mon << "/" << date->tm_mday << " "
            << date->tm_hour << ":" << date->tm_min << ":" << date->tm_sec << "."
-           << t.nsec / 1'000'000;
+           << std::setfill('0') << std::setw(3) << t.nsec / 1'000'000;
     }
+    os.fill(fill);
 
     return os;
 }
-- 
2.43.0


From badb1f4096d3c28179aac9011e33d8d93536e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 006/102] fix: CircularBuffer::pop_back destroys the last
 element, not the slot after it

---
 common/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 5e89fe9..5c61d6c 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -54,8 +54,8 @@ class CircularBuffer
     }
     void pop_back()
     {
+        --tail_;
         tail_->~T();  // call destructor manually without freeing memory
-        tail_--;
     }
 
     template <typename... Args>
-- 
2.43.0


From 2e33b4547d338e93bfb960698ae7beda0d319ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 007/102] fix: CircularBuffer constructs pushed elements in
 place, in aligned storage

---
 common/circular_buffer.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 5c61d6c..3f4c089 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -69,9 +69,10 @@ class CircularBuffer
 
     void push_back(const T& obj)
     {
+        // one slot is always free, and obj may be the element about to be dropped
+        new (&*tail_) T(obj);
         if (full())
             pop_front();
-        *tail_ = obj;
         ++tail_;
     }
 
@@ -86,18 +87,21 @@ class CircularBuffer
 
     void push_front(const T& obj)
     {
+        // one slot is always free, and obj may be the element about to be dropped
+        iterator slot = head_;
+        --slot;
+        new (&*slot) T(obj);
         if (full())
             pop_back();
 
         --head_;
-        *head_ = obj;
     }
 
     T* data() { return buf_; }
     const T* data() const { return buf_; }
 
  private:
-    uint8_t memory_[SIZE * sizeof(T)];
+    alignas(T) uint8_t memory_[SIZE * sizeof(T)];
     T* buf_ = reinterpret_cast<T*>(memory_);
     iterator end_ = {buf_ + SIZE, this};
     iterator head_ = {buf_, this};
-- 
2.43.0


From 3802e2e378c61fd84a5b22dbf7e4f6cf4498454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 008/102] fix: copying a CircularBuffer copies its elements
 instead of aliasing the original

---
 common/circular_buffer.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 3f4c089..240aca6 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -16,6 +16,16 @@ class CircularBuffer
     struct const_iterator;
 
     CircularBuffer() = default;
+    CircularBuffer(const CircularBuffer& other) { append(other); }
+    CircularBuffer& operator=(const CircularBuffer& other)
+    {
+        if (this != &other)
+        {
+            clear();
+            append(other);
+        }
+        return *this;
+    }
 
     ~CircularBuffer() { clear(); }
     const_iterator begin() const { return head_; }
@@ -101,6 +111,14 @@ class CircularBuffer
     const T* data() const { return buf_; }
 
  private:
+    void append(const CircularBuffer& other)
+    {
+        for (const_iterator it = other.begin(); it != other.end(); ++it)
+        {
+            push_back(*it);
+        }
+    }
+
     alignas(T) uint8_t memory_[SIZE * sizeof(T)];
     T* buf_ = reinterpret_cast<T*>(memory_);
     iterator end_ = {buf_ + SIZE, this};
-- 
2.43.0


From 75d3ed2004816297d64e6318cdc21dd86f0532f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 009/102] fix: a malformed required configuration entry stops
 the program

---
 utils/config.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/config.h b/utils/config.h
index 0beddbf..3170615 100644
--- a/utils/config.h
+++ b/utils/config.h
@@ -102,6 +102,7 @@ class Config
                     {
                         error("Unable to convert {}", fmt(key));
                         error("{}", fmt(e.what()));
+                        check(!required, "Malformed configuration {}", fmt(key));
                     }
                 }
                 else
-- 
2.43.0


From f01a4e4baadf1a967109e0bbc83db6301c58d075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 010/102] fix: a configuration list of the wrong length for a
 matrix stops the program

---
 utils/config.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/config.h b/utils/config.h
index 3170615..a79750a 100644
--- a/utils/config.h
+++ b/utils/config.h
@@ -63,6 +63,8 @@ class Config
         std::vector<typename T::Scalar> row_major;
         if (get(key, make_out(row_major), required))
         {
+            check(row_major.size() == static_cast<size_t>(Rows * Cols),
+                  "Wrong number of elements in configuration {}", fmt(key));
             (*out) = Eigen::Map<Eigen::Matrix<typename T::Scalar, Rows, Cols, Eigen::RowMajor>>(
                 row_major.data());
             return true;
@@ -76,6 +78,8 @@ class Config
         std::vector<typename T::Scalar> row_major;
         if (get(key, make_out(row_major), required))
         {
+            check(row_major.size() == static_cast<size_t>(Rows),
+                  "Wrong number of elements in configuration {}", fmt(key));
             (*out) = Eigen::Map<Eigen::Matrix<typename T::Scalar, Rows, 1>>(row_major.data());
             return true;
         }
-- 
2.43.0


From 017f29c03278aefe897db3eb4b614aa6418f6bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 011/102] fix: GPS ephemerides are completed from subframes of
 one issue of data only

---
 common/ephemeris/gps.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index f5b44df..f0f6681 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -96,6 +96,7 @@ bool GPSEphemeris::parse(const uint8_t* buf, size_t size)
 
     // Reset synchronization
     iode1 = iode2 = iode3 = 0;
+    collected_subframes = 0;
 
     return true;
 }
@@ -178,7 +179,6 @@ bool GPSEphemeris::frame3(const uint8_t* buf)
     iode3 = getBit<8>(buf, 216);
     idot = getBit<14, Signed>(buf, 224) * P2_43 * PI;
 
-    iode3 = iode;
     collected_subframes |= FRAME3;
 
     return true;
-- 
2.43.0


From 20b547f0766981169b08569e43e2d300be0aa068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 012/102] fix: decode the GPS hand-over word and refer toe to
 the week it belongs to

---
 common/ephemeris/gps.cxx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index f0f6681..44abe5c 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -90,6 +90,13 @@ bool GPSEphemeris::parse(const uint8_t* buf, size_t size)
 
     dbg("Got all subframes");
 
+    // The week is that of the transmission, toe may lie on the other side of the end of the week
+    const int64_t dt = static_cast<int64_t>(toes) - static_cast<int64_t>(tow);
+    if (dt > UTCTime::SEC_IN_WEEK / 2)
+        --week;
+    else if (dt < -UTCTime::SEC_IN_WEEK / 2)
+        ++week;
+
     // Set toe and toc
     toe = UTCTime::fromGPS(week, toes * 1000);
     toc = UTCTime::fromGPS(week, tocs * 1000);
@@ -109,7 +116,8 @@ bool GPSEphemeris::frame1(const uint8_t* buf)
         return false;
     }
     dbg("GOT FRAME 1");
-    // double tow = getBit<17>(buf, 24) * 6.0;
+    tow = getBit<17>(buf, 24) * 6;
+    anti_spoof = getBit<1>(buf, 42);
     int week_mod = getBit<10>(buf, 48);  // This is the week modulo 2^10
     code_on_L2 = getBit<2>(buf, 58);
     ura = getBit<4>(buf, 60);
@@ -123,7 +131,7 @@ bool GPSEphemeris::frame1(const uint8_t* buf)
     af1 = getBit<16, Signed>(buf, 200) * P2_43;
     af0 = getBit<22, Signed>(buf, 216) * P2_31;
 
-    alert_flag = 0;  // TODO: populate
+    alert_flag = getBit<1>(buf, 41);
 
     tgd = _tgd == -128 ? 0.0 : _tgd * P2_31;
     iodc = (iodc0 << 8) + iode;
@@ -154,6 +162,7 @@ bool GPSEphemeris::frame2(const uint8_t* buf)
     sqrta = getBit<32>(buf, 184) * P2_19;
     toes = getBit<16>(buf, 216) * 16.0;
     fit_interval_flag = getBit<1>(buf, 232) ? 0.0 : 4.0;
+    age_of_data_offset = getBit<5>(buf, 233) * 900;
 
     iode2 = iode;
     collected_subframes |= FRAME2;
-- 
2.43.0


From 5bf3048da42a5675f0c9921cb6c63bbe10cdaa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 013/102] fix: refuse Galileo pages shorter than a page instead
 of reading past them

---
 common/ephemeris/galileo.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 817f3d7..8e3fcd3 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -47,7 +47,12 @@ double GalileoEphemeris::getWavelength(int frequency) const
 
 bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
 {
-    (void)size;
+    if (size < 32)
+    {
+        dbg("Incomplete Galileo page");
+        return false;
+    }
+
     // swap buffer endianness
     uint8_t buf[64];
     const uint8_t* p = msg;
-- 
2.43.0


From b50b07f5c2d27b69ed6ed93a031d4063b1d98431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 014/102] fix: Galileo word 5 ionosphere coefficients and
 data-validity bits

---
 common/ephemeris/galileo.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 8e3fcd3..b76e3bf 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -278,12 +278,15 @@ bool GalileoEphemeris::frame4(const uint8_t* buf)
 bool GalileoEphemeris::frame5(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
+    ai0 = getBit<11>(buf, 6) * 0.25;
+    ai1 = getBit<11, Signed>(buf, 17) / 256.0;
+    ai2 = getBit<14, Signed>(buf, 28) / 32768.0;
     bgd_e1_e5a = getBit<10, Signed>(buf, 47) * P2_32;
     bgd_e1_e5b = getBit<10, Signed>(buf, 57) * P2_32;
     e5b_hs = getBit<2>(buf, 67);
     e1b_hs = getBit<2>(buf, 69);
-    e5b_dvs = getBit<1>(buf, 70);
-    e1b_dvs = getBit<1>(buf, 71);
+    e5b_dvs = getBit<1>(buf, 71);
+    e1b_dvs = getBit<1>(buf, 72);
     // week = getBit<12>(buf, 72);
     // tow = getBit<20>(buf, 84); // Use frame 0 for time
 
-- 
2.43.0


From 7289d6b7480a9fc19cd9d9bd5dd7bbb535d7a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 015/102] fix: Galileo words of another satellite, or without
 time, and repeated completions do not corrupt the ephemeris

---
 common/ephemeris/galileo.cxx | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index b76e3bf..e2b7b5d 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -178,6 +178,9 @@ bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
     toe = UTCTime::fromGalileo(week, toes * 1000);
     toc = UTCTime::fromGalileo(week, tocs * 1000.0);
 
+    // week is no longer what word 0 carried, so all the words have to be collected again
+    collected_subframes = 0;
+
     return true;
 }
 
@@ -185,6 +188,11 @@ bool GalileoEphemeris::frame0(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
     time_f = getBit<2>(buf, 6);
+    if (time_f != 2)
+    {
+        dbg("Galileo word 0 carries no time");
+        return false;
+    }
     week = getBit<12>(buf, 96);
     tow = getBit<20>(buf, 108);
     if (type != 0)
@@ -252,8 +260,13 @@ bool GalileoEphemeris::frame3(const uint8_t* buf)
 bool GalileoEphemeris::frame4(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
-    iod[3] = getBit<10>(buf, 6);
     int svid = getBit<6>(buf, 16);
+    if (svid != sat)
+    {
+        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
+        return false;
+    }
+    iod[3] = getBit<10>(buf, 6);
     cic = getBit<16, Signed>(buf, 22) * P2_29;
     cis = getBit<16, Signed>(buf, 38) * P2_29;
     tocs = getBit<14>(buf, 54) * 60.0;
@@ -266,11 +279,6 @@ bool GalileoEphemeris::frame4(const uint8_t* buf)
         dbg("Galileo word type 4 error : expected=4, got {}", fmt(type));
         return false;
     }
-    if (svid != sat)
-    {
-        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
-        return false;
-    }
     collected_subframes |= FRAME4;
     return true;
 }
-- 
2.43.0


From 814e0de5e5e6d043c5a44e91324b7f3fc579033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 016/102] fix: GLONASS reference times use the current day, not
 the day of the almanac

---
 common/ephemeris/glonass.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ephemeris/glonass.cxx b/common/ephemeris/glonass.cxx
index 160649c..00913f4 100644
--- a/common/ephemeris/glonass.cxx
+++ b/common/ephemeris/glonass.cxx
@@ -201,7 +201,7 @@ bool GlonassEphemeris::convertTime()
     static UTCTime Jan1_1996 = UTCTime::fromCalendar(1996, 1, 1, 0, 0, 0);
     UTCTime start_of_year =
         Jan1_1996 + (N4_ - 1) * (3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR) - (3 * 3600);
-    UTCTime start_of_day = start_of_year + (NA_ - 1) * UTCTime::SEC_IN_DAY;
+    UTCTime start_of_day = start_of_year + (NT_ - 1) * UTCTime::SEC_IN_DAY;
 
     // Convert t_k (tof) to UTC
     if (got(FRAME1))
-- 
2.43.0


From d228b912733a71227e51dbae5de389f70d479d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 017/102] fix: GLONASS four-year intervals from 2064 on do not
 overflow

---
 common/ephemeris/glonass.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/ephemeris/glonass.cxx b/common/ephemeris/glonass.cxx
index 00913f4..29b8d4b 100644
--- a/common/ephemeris/glonass.cxx
+++ b/common/ephemeris/glonass.cxx
@@ -200,7 +200,9 @@ bool GlonassEphemeris::convertTime()
 
     static UTCTime Jan1_1996 = UTCTime::fromCalendar(1996, 1, 1, 0, 0, 0);
     UTCTime start_of_year =
-        Jan1_1996 + (N4_ - 1) * (3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR) - (3 * 3600);
+        Jan1_1996 +
+        (N4_ - 1) * static_cast<double>(3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR) -
+        (3 * 3600);
     UTCTime start_of_day = start_of_year + (NT_ - 1) * UTCTime::SEC_IN_DAY;
 
     // Convert t_k (tof) to UTC
-- 
2.43.0


From f8a038417a5df18370870cb200fad32b6f1c8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 018/102] fix: satellite clock polynomial is referred to toc
 and the drift is its derivative

---
 common/satellite/satellite_state.cxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 4eb065e..6d6e080 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -93,13 +93,16 @@ Error eph2Sat(const UTCTime& t,
     sat_state->vel.z() = ypkdot * sik + ypk * cik * ikdot;
 
     const double clk_dt = (t - eph.toc).toSec();
-    double dts = eph.af0 + eph.af1 * dt + eph.af2 * clk_dt * clk_dt;
+    double dts = eph.af0 + eph.af1 * clk_dt + eph.af2 * clk_dt * clk_dt;
+    double dtsdot = eph.af1 + 2.0 * eph.af2 * clk_dt;
 
     // Correct for relativistic effects on the satellite clock
-    dts -= 2.0 * sqrt(GM_EARTH * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
+    const double rel = 2.0 * sqrt(GM_EARTH * A) * eph.ecc / (C_LIGHT * C_LIGHT);
+    dts -= rel * sek;
+    dtsdot -= rel * cek * ekdot;
 
-    sat_state->clk(0) = dts;                           // satellite clock bias (sec)
-    sat_state->clk(1) = (eph.af1 + eph.af2 * clk_dt);  // satellite drift rate (sec/s)
+    sat_state->clk(0) = dts;     // satellite clock bias (sec)
+    sat_state->clk(1) = dtsdot;  // satellite drift rate (sec/s)
     sat_state->t = t;
 
     return Error::none();
-- 
2.43.0


From 276a5d9894ed40c2a9b17ecd576e074b4eee8263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 019/102] fix: satellite velocity is finite at perigee and
 apogee

---
 common/satellite/satellite_state.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 6d6e080..77abcd3 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -44,8 +44,7 @@ Error eph2Sat(const UTCTime& t,
     const double ekdot = mkdot / (1.0 - eph.ecc * cek);
 
     const double tak = atan2(sqrt(1.0 - eph.ecc * eph.ecc) * sek, cek - eph.ecc);
-    const double takdot =
-        sek * ekdot * (1.0 + eph.ecc * cos(tak)) / (sin(tak) * (1.0 - eph.ecc * cek));
+    const double takdot = ekdot * sqrt(1.0 - eph.ecc * eph.ecc) / (1.0 - eph.ecc * cek);
 
     const double phik = tak + eph.w;
     const double sphik2 = sin(2.0 * phik);
-- 
2.43.0


From 6d7c8aa506f9ad9f5f0912b690831b6f0c667fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 020/102] fix: Galileo orbits use the gravitational constant of
 the Galileo ICD

---
 common/defs.h                        | 1 +
 common/satellite/satellite_state.cxx | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/defs.h b/common/defs.h
index 0450cc2..1ee8efb 100644
--- a/common/defs.h
+++ b/common/defs.h
@@ -7,6 +7,7 @@ namespace mc {
 
 constexpr double C_LIGHT = 299792458.0;                 // speed of light (m/s)
 static constexpr double GM_EARTH = 3.986005e14;         // Mass of the earth (kg)
+static constexpr double GM_EARTH_GALILEO = 3.986004418e14;  // the value the Galileo ICD prescribes
 static constexpr double OMEGA_EARTH = 7.2921151467e-5;  // Angular Velocity of the earth (rad/s)
 
 static constexpr double TIME_QUANTIZATION = 1e-4;  // Time quantization for measurement alignment
diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 77abcd3..b3025c4 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -25,7 +25,8 @@ Error eph2Sat(const UTCTime& t,
 
     // https://www.ngs.noaa.gov/gps-toolbox/bc_velo/bc_velo.c
     const double A = eph.sqrta * eph.sqrta;
-    const double n0 = sqrt(GM_EARTH / (A * A * A));
+    const double gm = eph.gnssID == GnssID::Galileo ? GM_EARTH_GALILEO : GM_EARTH;
+    const double n0 = sqrt(gm / (A * A * A));
     const double mkdot = n0 + eph.delta_n;
     const double mk = eph.m0 + mkdot * dt;
 
@@ -96,7 +97,7 @@ Error eph2Sat(const UTCTime& t,
     double dtsdot = eph.af1 + 2.0 * eph.af2 * clk_dt;
 
     // Correct for relativistic effects on the satellite clock
-    const double rel = 2.0 * sqrt(GM_EARTH * A) * eph.ecc / (C_LIGHT * C_LIGHT);
+    const double rel = 2.0 * sqrt(gm * A) * eph.ecc / (C_LIGHT * C_LIGHT);
     dts -= rel * sek;
     dtsdot -= rel * cek * ekdot;
 
-- 
2.43.0


From f425e8ca6eca7fdadd78c7b852322674e4b934c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 021/102] fix: GLONASS states are integrated from the
 ephemeris, not from whatever state is passed in

---
 common/satellite/satellite_state.cxx | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index b3025c4..7e206c7 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -122,22 +122,8 @@ Error eph2Sat(const UTCTime& t,
 
     // Position
     Vec6 x;
-    if (sat_state->t == INVALID_TIME)
-    {
-        auto p = x.head<3>();
-        auto v = x.tail<3>();
-        p = eph.pos;
-        v = eph.vel;
-    }
-    else
-    {
-        // Seed from last time
-        dt = (t - sat_state->t).toSec();
-        auto p = x.head<3>();
-        auto v = x.tail<3>();
-        p = sat_state->pos;
-        v = sat_state->vel;
-    }
+    x.head<3>() = eph.pos;
+    x.tail<3>() = eph.vel;
 
     double timestep = dt < 0.0 ? -TSTEP : TSTEP;
     int i = 0;
-- 
2.43.0


From f908bbcfc6c1b0c690890581bf708b9586334a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 022/102] fix: light-time iteration compares the time error
 itself, not its integer part

---
 common/satellite/satellite_cache.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/satellite/satellite_cache.cxx b/common/satellite/satellite_cache.cxx
index 87ee842..8add843 100644
--- a/common/satellite/satellite_cache.cxx
+++ b/common/satellite/satellite_cache.cxx
@@ -42,7 +42,7 @@ void SatelliteCache::update(const UTCTime& t, const Vec3 rec_pos_ecef, const Sat
 
     sat.getState(t, make_out(state));
     double dt = std::numeric_limits<double>::max();
-    while (abs(dt) * state.vel.norm() > 1e-3)  // get millimeter-accurate
+    while (std::abs(dt) * state.vel.norm() > 1e-3)  // get millimeter-accurate
     {
         // Compute how long it took for the signal to get here (including Sagnac Correction)
         Vec3 los_to_sat = state.pos - rec_pos_ecef;
-- 
2.43.0


From ead303c19680b7903358247288a240ec7f095eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 023/102] fix: no ionospheric delay below the horizon or far
 below the ellipsoid

---
 common/satellite/atm_correction.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/satellite/atm_correction.cxx b/common/satellite/atm_correction.cxx
index c4de79b..06ba207 100644
--- a/common/satellite/atm_correction.cxx
+++ b/common/satellite/atm_correction.cxx
@@ -65,6 +65,9 @@ double computeIonosphericDelay(const UTCTime& utc_t, const Vec3& lla, const Azim
                           0.1118E-07, -0.7451E-08, -0.5961E-07, 0.1192E-06,
                           0.1167E+06, -0.2294E+06, -0.1311E+06, 0.1049E+07};
 
+    if (lla.z() < -1E3 || azel.el <= 0)
+        return 0.0;
+
     // Earth-Centered Angle (Elevation in Semicircles)
     const double psi = 0.0137 / (azel.el / M_PI + 0.11) - 0.022;
 
-- 
2.43.0


From 900baa3b9462b1055142039995096db0c24108f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 024/102] fix: true anomaly rate only replaced where it is 0/0;
 clock drift stays the polynomial's

---
 common/satellite/satellite_state.cxx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 7e206c7..8f0f0ad 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -45,7 +45,11 @@ Error eph2Sat(const UTCTime& t,
     const double ekdot = mkdot / (1.0 - eph.ecc * cek);
 
     const double tak = atan2(sqrt(1.0 - eph.ecc * eph.ecc) * sek, cek - eph.ecc);
-    const double takdot = ekdot * sqrt(1.0 - eph.ecc * eph.ecc) / (1.0 - eph.ecc * cek);
+    // at perigee and apogee sin(ek)/sin(tak) is 0/0
+    const double takdot =
+        abs(sek) < 1e-3
+            ? ekdot * sqrt(1.0 - eph.ecc * eph.ecc) / (1.0 - eph.ecc * cek)
+            : sek * ekdot * (1.0 + eph.ecc * cos(tak)) / (sin(tak) * (1.0 - eph.ecc * cek));
 
     const double phik = tak + eph.w;
     const double sphik2 = sin(2.0 * phik);
@@ -94,12 +98,10 @@ Error eph2Sat(const UTCTime& t,
 
     const double clk_dt = (t - eph.toc).toSec();
     double dts = eph.af0 + eph.af1 * clk_dt + eph.af2 * clk_dt * clk_dt;
-    double dtsdot = eph.af1 + 2.0 * eph.af2 * clk_dt;
+    const double dtsdot = eph.af1 + 2.0 * eph.af2 * clk_dt;
 
     // Correct for relativistic effects on the satellite clock
-    const double rel = 2.0 * sqrt(gm * A) * eph.ecc / (C_LIGHT * C_LIGHT);
-    dts -= rel * sek;
-    dtsdot -= rel * cek * ekdot;
+    dts -= 2.0 * sqrt(gm * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
 
     sat_state->clk(0) = dts;     // satellite clock bias (sec)
     sat_state->clk(1) = dtsdot;  // satellite drift rate (sec/s)
-- 
2.43.0


From 9b29c96bc126243d20c2e6695d69b597e0ba882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 025/102] fix: Quat::invert() returns the object it promises

---
 common/math/quat.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index af20a3c..9a2104b 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -488,7 +488,11 @@ class Quat
         return v + w() * t + t.colwise().cross(arr_.template segment<3>(1));
     }
 
-    Quat& invert() { arr_.template block<3, 1>(1, 0) *= (T)-1.0; }
+    Quat& invert()
+    {
+        arr_.template block<3, 1>(1, 0) *= (T)-1.0;
+        return *this;
+    }
 
     Quat inverse() const
     {
-- 
2.43.0


From fe39e7d7a0309540d044542e8fd15d62ab8bd4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 026/102] fix: Quat::operator*= gives the square when
 multiplied by itself

---
 common/math/quat.h | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index 9a2104b..c20f3fb 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -100,17 +100,8 @@ class Quat
     }
     Quat& operator*=(const Quat& q)
     {
-        const T _w = w();
-        const T _x = x();
-        const T _y = y();
-        const T _z = z();
-
-        // clang-format off
-        arr_ << _w * q.w() - _x * q.x() - _y * q.y() - _z * q.z(),
-                _w * q.x() + _x * q.w() + _y * q.z() - _z * q.y(),
-                _w * q.y() - _x * q.z() + _y * q.w() + _z * q.x(),
-                _w * q.z() + _x * q.y() - _y * q.x() + _z * q.w();
-        // clang-format on
+        // the product is complete before anything is written: q may be this very quaternion
+        arr_ = otimes(q).elements();
         return *this;
     }
 
-- 
2.43.0


From 2a859ce38604b4ee649e156a85057a103ee180ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 027/102] fix: the logarithm of a quaternion is the least
 rotation, for either sign of the quaternion

---
 common/math/quat.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index c20f3fb..1fe8652 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -214,7 +214,9 @@ class Quat
 
         if (norm_v > (T)4e-6)
         {
-            return (T)2.0 * atan2(norm_v, w()) * v / norm_v;
+            // q and -q are the same rotation, take the one with the least angle
+            const T sgn = w() < (T)0.0 ? (T)-1.0 : (T)1.0;
+            return (T)2.0 * atan2(sgn * norm_v, sgn * w()) * v / norm_v;
         }
         else
         {
@@ -237,12 +239,12 @@ class Quat
         Vec3 r = v / norm_v;
         if (norm_v > (T)4e-6)
         {
-            th = 2. * atan2(norm_v, w());
+            // q and -q are the same rotation, take the one with the least angle
+            const T sgn = w() < (T)0.0 ? (T)-1.0 : (T)1.0;
+            th = 2. * atan2(sgn * norm_v, sgn * w());
             const T th2 = th * th;
-            const T a = sin(th) / th;
-            const T b = (1 - cos(th)) / th2;
-            const T c = (1 - a) / th2;
-            e = (b - 2 * c) / (2 * a);
+            // the half angle's tangent is finite all the way to a half-turn
+            e = (1. - th / 2. * w() / norm_v) / th2;
         }
         else
         {
-- 
2.43.0


From 64a3081089b606fc0a68a08359d8dc631de84dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 028/102] fix: the rotation between two directions is right for
 parallel and opposite ones too

---
 common/math/quat.h | 10 ++++++++--
 common/math/so3.h  | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index 1fe8652..43e5744 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -350,8 +350,14 @@ class Quat
     static Quat from_two_unit_vectors(const Vec3& u, const Vec3& v)
     {
         const T cos_theta = u.dot(v);
-        const Vec3 axis = u.cross(v).normalized();
-        return from_axis_angle(axis, -acos(cos_theta));
+        const Vec3 cross = u.cross(v);
+        const T sin_theta = cross.norm();
+        if (cos_theta < (T)0.0 && sin_theta < (T)1e-8)
+        {
+            // Opposite vectors: half a turn about any axis perpendicular to them
+            return from_axis_angle(u.unitOrthogonal(), (T)M_PI);
+        }
+        return from_axis_angle(cross.normalized(), -atan2(sin_theta, cos_theta));
     }
 
     static Quat Identity()
diff --git a/common/math/so3.h b/common/math/so3.h
index bc509cb..3b3ed03 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -251,9 +251,15 @@ class SO3
         const Vec3 u2 = _u2.normalized();
 
         const Vec3 axis = u1.cross(u2);
-        const T c = u1.dot(u2);  // cosine of angle
+        const T c = u1.dot(u2);     // cosine of angle
+        const T s = axis.norm();    // sine of angle
+        if (c < (T)0.0 && s < (T)1e-8)
+        {
+            // Opposite vectors: half a turn about any axis perpendicular to them
+            return exp(u1.unitOrthogonal() * (T)M_PI);
+        }
 
-        return exp(axis.normalized() * acos(c));
+        return exp(axis.normalized() * atan2(s, c));
     }
 
     // SO3 is self-adjoint
-- 
2.43.0


From 6719ba05f1f0af30c282bf57fb993e719ec49109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 029/102] fix: the logarithm of a small rigid transform, and of
 the negative of a dual quaternion

---
 common/math/dquat.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index dc77701..8a2dc0f 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -271,10 +271,12 @@ class DQuat
 
     Vec6 log() const
     {
-        const auto r = real().bar();
-        const auto d = dual().bar();
-        const auto r0 = real().w();
-        const auto d0 = dual().w();
+        // q and -q are the same transform, take the one with the least angle
+        const T sgn = real().w() < (T)0.0 ? (T)-1.0 : (T)1.0;
+        const Vec3 r = sgn * real().bar();
+        const Vec3 d = sgn * dual().bar();
+        const T r0 = sgn * real().w();
+        const T d0 = sgn * dual().w();
 
         const T th2 = r.squaredNorm();
         const T gm = r.dot(d);
@@ -296,10 +298,8 @@ class DQuat
             const T r03 = r02 * r0;
             const T r05 = r03 * r02;
             const T th4 = th2 * th2;
-            const T th6 = th4 * th2;
-            const T a = 1. - 1. / (3. * r03) * th2 + 1. / (5. * r05) * th4;
-            const T c =
-                5. / 24. - 379. / 1920. * th2 + 46073. / 322560. * th4 - 127431. / 1146880. * th6;
+            const T a = 1. / r0 - 1. / (3. * r03) * th2 + 1. / (5. * r05) * th4;
+            const T c = -2. / 3. - 1. / 5. * th2 - 3. / 28. * th4;  // (r0-a)/th2
             // clang-format off
             wv << (T)2.0 * a * r,
                   (T)2.0 * (a * d + (gm*c - d0)*r);
@@ -311,10 +311,12 @@ class DQuat
     template <JacobianSide SIDE = JacobianSide::LEFT>
     Vec6 log(Mat6* jac) const
     {
-        const auto r = real().bar();
-        const auto d = dual().bar();
-        const auto r0 = real().w();
-        const auto d0 = dual().w();
+        // q and -q are the same transform, take the one with the least angle
+        const T sgn = real().w() < (T)0.0 ? (T)-1.0 : (T)1.0;
+        const Vec3 r = sgn * real().bar();
+        const Vec3 d = sgn * dual().bar();
+        const T r0 = sgn * real().w();
+        const T d0 = sgn * dual().w();
 
         const T s2 = r.squaredNorm();
         const T gm = r.dot(d);
@@ -349,10 +351,8 @@ class DQuat
             const T r03 = r02 * r0;
             const T r05 = r03 * r02;
             const T s4 = s2 * s2;
-            const T s6 = s4 * s2;
-            const T a1 = 1. - 1. / (3. * r03) * s2 + 1. / (5. * r05) * s4;
-            const T c1 =
-                5. / 24. - 379. / 1920. * s2 + 46073. / 322560. * s4 - 127431. / 1146880. * s6;
+            const T a1 = 1. / r0 - 1. / (3. * r03) * s2 + 1. / (5. * r05) * s4;
+            const T c1 = -2. / 3. - 1. / 5. * s2 - 3. / 28. * s4;  // (r0-a1)/s2
             v = (T)2.0 * (a1 * d + (gm * c1 - d0) * r);
 
             const double th4 = th2 * th2;
-- 
2.43.0


From 867e5a3b6b7cf46543fccfd99526100df4f633a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 030/102] fix: the logarithm of a rotation matrix near a
 half-turn is the least rotation, and so is its Jacobian

---
 common/math/so3.h | 43 +++++++------------------------------------
 1 file changed, 7 insertions(+), 36 deletions(-)

diff --git a/common/math/so3.h b/common/math/so3.h
index 3b3ed03..9fb6753 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -138,31 +138,8 @@ class SO3
         }
         else  // theta close to Pi
         {
-            // First, go to quaternion, then generate the rotation matrix
-            Eigen::Matrix<T, 4, 1> qarr;
-            const Mat3& m(rot_);
-            if ((m(0, 0) > m(1, 1)) && (m(0, 0) > m(2, 2)))
-            {
-                T S = sqrt(1.0 + m(0, 0) - m(1, 1) - m(2, 2)) * 2.;
-                qarr << (m(1, 2) - m(2, 1)) / S, 0.25 * S, (m(1, 0) + m(0, 1)) / S,
-                    (m(2, 0) + m(0, 2)) / S;
-            }
-            else if (m(1, 1) > m(2, 2))
-            {
-                T S = sqrt(1.0 + m(1, 1) - m(0, 0) - m(2, 2)) * 2.;
-                qarr << (m(2, 0) - m(0, 2)) / S, (m(1, 0) + m(0, 1)) / S, 0.25 * S,
-                    (m(2, 1) + m(1, 2)) / S;
-            }
-            else
-            {
-                T S = sqrt(1.0 + m(2, 2) - m(0, 0) - m(1, 1)) * 2.;
-                qarr << (m(0, 1) - m(1, 0)) / S, (m(2, 0) + m(0, 2)) / S, (m(2, 1) + m(1, 2)) / S,
-                    0.25 * S;
-            }
-            auto v = qarr.template tail<3>();
-            T& w = qarr[0];
-            T norm_v = v.norm();
-            return 2.0 * std::atan2(norm_v, w) * v / norm_v;
+            // Go through the quaternion, whose log is the inverse of the rotation log
+            return -Quat<T>::from_R(rot_).log();
         }
     }
 
@@ -202,21 +179,15 @@ class SO3
         }
         else  // theta close to Pi
         {
-            // First, go to quaternion, then compute the axis-angle
-            // Because the quaternion log is inverse the rotation log,
-            // we need to return the negative transpose of the quaternion jacobian
-            Quat<T> q = Quat<T>::from_R(rot_);
-            w = -q.log();
+            // Go through the quaternion, whose log is the inverse of the rotation log
+            w = -Quat<T>::from_R(rot_).log();
             const T th2 = w.squaredNorm();
             const T th = sqrt(th2);
-            a = sin(th) / th;
-            b = (1 - cos(th)) / th2;
-            c = (1 - a) / th2;
 
-            // log_q = log_Rᵀ
-            const T e = (b - 2 * c) / (2 * a);
+            // sin(th) vanishes here, the half angle's cotangent does not blow up
+            const T e = (1. - th / 2. * cos(th / 2.) / sin(th / 2.)) / th2;
             const Mat3 sk_w = skew(w);
-            *jac = -Mat3::Identity() + 1. / 2. * sk_w - e * sk_w * sk_w;
+            *jac = Mat3::Identity() - 1. / 2. * sk_w + e * sk_w * sk_w;
 
             return w;
         }
-- 
2.43.0


From 3cc6c60829e4ff49c365cd081a325a58a42f223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 031/102] fix: the Jacobian of the logarithm of a tiny rotation
 is finite when the trace rounds above 3

---
 common/math/so3.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/common/math/so3.h b/common/math/so3.h
index 9fb6753..215ff9e 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -160,8 +160,7 @@ class SO3
         T a, b, c;
         if (t >= 3.0 - eps)  // Theta close to zero
         {
-            const T th = std::acos((t - 1.) / 2.);
-            const T th2 = th * th;
+            const T th2 = r.squaredNorm() / 4.;
             const T th4 = th2 * th2;
             a = 1. - th2 / 6. + th4 / 120.;
             b = 1. / 2. - th2 / 24. + th4 / 720.;
-- 
2.43.0


From 8ca66f0fb9f08bead828b15ffc72ebbf7d90ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 032/102] fix: the logarithm of a rigid transform near a
 half-turn

---
 common/math/se3.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/common/math/se3.h b/common/math/se3.h
index 955e2dc..91ff060 100644
--- a/common/math/se3.h
+++ b/common/math/se3.h
@@ -173,7 +173,7 @@ class SE3
             a = sin(th) / th;
             b = ((T)1. - cos(th)) / th2;
             c = ((T)1. - a) / th2;
-            e = (b * 0.5 - c) / a;
+            e = (1. - th / 2. * cos(th / 2.) / sin(th / 2.)) / th2;
             C1 = (a - 2 * b) / th2;
             C2 = (b - 3 * c) / th2;
         }
@@ -210,11 +210,8 @@ class SE3
         }
         else
         {
-            const T a = sin(th) / th;
-            const T b = ((T)1. - cos(th)) / th2;
-            const T c = ((T)1. - a) / th2;
-
-            e = (b * 0.5 - c) / a;
+            // finite all the way to a half-turn
+            e = (1. - th / 2. * cos(th / 2.) / sin(th / 2.)) / th2;
         }
 
         Vec3 wxt = w.cross(t_);
-- 
2.43.0


From 01c0f84c3e03b83eea7234ea451f093f4290cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 033/102] fix: a dual quaternion built from eight numbers has
 those parts

---
 common/math/dquat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index 8a2dc0f..21caefc 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -81,8 +81,9 @@ class DQuat
           const T& dx,
           const T& dy,
           const T& dz)
-        : buf_{rw, rx, ry, rz, dw, dx, dy, dz}, arr_(buf_)
+        : DQuat(buf_)
     {
+        arr_ << rw, rx, ry, rz, dw, dx, dy, dz;
     }
 
     DQuat(const Eigen::Ref<const Vec8> arr) : DQuat(arr.data()) {}
-- 
2.43.0


From e803f709cde70cb5f0fd9e7e24e44d8f62758be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 034/102] fix: log streams with different keys never share a
 file

Keys were centred in a field of zeros, so that 120 and 1200 both went to
LOG_KEY_1200 and overwrote each other. They are right-aligned now, and the
reader takes the file names from the manifest, which also keeps logs that
have no stream of their own (and earlier logs) readable.
---
 common/logging/log_key.h      |  2 +-
 common/logging/log_reader.cxx | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/common/logging/log_key.h b/common/logging/log_key.h
index c552103..60040d7 100644
--- a/common/logging/log_key.h
+++ b/common/logging/log_key.h
@@ -52,7 +52,7 @@ inline std::string logKeyName(int key)
     case ESTIMATE:
         return "ESTIMATE";
     default:
-        return fmt::format("LOG_KEY_{:0^4}", key);
+        return fmt::format("LOG_KEY_{:0>4}", key);
     }
 }
 
diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index 6dc4295..880f9c6 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -124,9 +124,15 @@ void LogReader::openLog(const fs::path& directory)
     start_time_ = std::min(start_time_, log_start_time);
     end_time_ = std::max(end_time_, log_end_time);
 
-    for (const auto key : node["keys"].as<std::vector<int>>())
+    // The manifest says which file each stream is in
+    const YAML::Node keys = node["keys"];
+    const YAML::Node names = node["key_names"];
+    for (size_t i = 0; i < keys.size(); ++i)
     {
-        const std::string stream_data_file = directory / fs::path(logKeyName(key) + ".log");
+        const int key = keys[i].as<int>();
+        const std::string name =
+            i < names.size() ? names[i].as<std::string>() : logKeyName(key);
+        const std::string stream_data_file = directory / fs::path(name + ".log");
         streams_.emplace(key, stream_data_file);
     }
 
-- 
2.43.0


From db7ad8bba06bae21d4af7b61a2eabbcea26ebfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 035/102] fix: opening a log by a path with a trailing slash,
 or a directory without logs

The former looked for logs inside the log and took the last of none.
---
 common/logging/log_reader.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index 880f9c6..d6a6a42 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -32,6 +32,11 @@ bool isLogId(const std::string& maybe_log_id)
 
 fs::path getLatestLog(const fs::path& path)
 {
+    // A trailing slash does not change which directory is meant
+    if (path.filename() == "." && isLogId(path.parent_path().stem()))
+    {
+        return path.parent_path();
+    }
     if (isLogId(path.stem()))
     {
         return path;
@@ -46,6 +51,7 @@ fs::path getLatestLog(const fs::path& path)
             options.push_back(entry.path());
         }
     }
+    check(!options.empty(), "Unable to find a log in {}", fmt(path));
     std::sort(options.begin(), options.end());
     return fs::path(options.back());
 }
-- 
2.43.0


From 74c13170090f9d287ca142d4803017a0aedf3795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 036/102] fix: a log closed with an end time keeps it

The destructor closed it again, with the current time.
---
 common/logging/log_writer.cxx | 2 ++
 common/logging/log_writer.h   | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/common/logging/log_writer.cxx b/common/logging/log_writer.cxx
index 7fc6957..c5ca7fe 100644
--- a/common/logging/log_writer.cxx
+++ b/common/logging/log_writer.cxx
@@ -23,6 +23,7 @@ void Logger::open(const UTCTime& start_time, const std::string& directory)
     utils::removeDirectoryIfExist(directory_);
     utils::makeDirectoryIfNotExist(directory_);
     createManifest(start_time);
+    open_ = true;
 }
 
 void Logger::close(const UTCTime& t_end)
@@ -32,6 +33,7 @@ void Logger::close(const UTCTime& t_end)
         streams_.erase(streams_.begin());
     }
     writeManifest(t_end);
+    open_ = false;
 }
 
 void Logger::createManifest(const UTCTime& start_time)
diff --git a/common/logging/log_writer.h b/common/logging/log_writer.h
index 91d5f05..57ecb35 100644
--- a/common/logging/log_writer.h
+++ b/common/logging/log_writer.h
@@ -66,7 +66,13 @@ class Logger
     Logger(const std::string directory) { open(UTCTime::now(), directory); }
     Logger(const UTCTime& start_time, const std::string directory) { open(start_time, directory); }
 
-    ~Logger() { close(UTCTime::now()); }
+    ~Logger()
+    {
+        if (open_)
+        {
+            close(UTCTime::now());
+        }
+    }
 
     void open(const std::string& directory) { open(UTCTime::now(), directory); }
     void open(const UTCTime& start_time, const std::string& directory);
@@ -114,6 +120,7 @@ class Logger
     }
 
  private:
+    bool open_ = false;
     std::experimental::filesystem::path directory_;
     YAML::Node manifest_;
     std::string log_id_;
-- 
2.43.0


From 57fb3c9c27cf29fdc966627584cd5e1c68bce542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 037/102] fix: the description of a logged ephemeris lists the
 fields that are logged

It listed decoder bookkeeping that is not written, and missed the second
reference time of a GLONASS ephemeris that is, so a reader going by the
description misread every record after the first difference.
---
 common/logging/log_format.cxx | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/common/logging/log_format.cxx b/common/logging/log_format.cxx
index 0727f19..d60decb 100644
--- a/common/logging/log_format.cxx
+++ b/common/logging/log_format.cxx
@@ -64,10 +64,6 @@ YAML::Node format(const ephemeris::GPSEphemeris& eph)
     node["fit_interval_flag"] = format(eph.fit_interval_flag);
     node["age_of_data_offset"] = format(eph.age_of_data_offset);
     node["tgd"] = format(eph.tgd);
-    node["iode1"] = format(eph.iode1);
-    node["iode2"] = format(eph.iode2);
-    node["iode3"] = format(eph.iode3);
-    node["collected_subframes"] = format(eph.collected_subframes);
     return node;
 }
 YAML::Node format(const ephemeris::GalileoEphemeris& eph)
@@ -114,9 +110,6 @@ YAML::Node format(const ephemeris::GalileoEphemeris& eph)
     node["e1b_hs"] = format(eph.e1b_hs);
     node["e5b_dvs"] = format(eph.e5b_dvs);
     node["e1b_dvs"] = format(eph.e1b_dvs);
-    node["collected_subframes"] = format(eph.collected_subframes);
-    node["time_f"] = format(eph.time_f);
-    node["iod"] = format(eph.iod, 4);
     return node;
 }
 
@@ -133,6 +126,7 @@ YAML::Node format(const ephemeris::GlonassEphemeris& eph)
     node["svh"] = format(eph.svh);
     node["sva"] = format(eph.sva);
     node["age"] = format(eph.age);
+    node["toe2"] = format(eph.toe);  // written a second time
     node["tof"] = format(eph.tof);
     node["pos"] = format(eph.pos);
     node["vel"] = format(eph.vel);
@@ -140,15 +134,6 @@ YAML::Node format(const ephemeris::GlonassEphemeris& eph)
     node["taun"] = format(eph.taun);
     node["gamn"] = format(eph.gamn);
     node["dtaun"] = format(eph.dtaun);
-    node["frame_flags"] = format(eph.frame_flags_);
-    node["time_mark"] = format(eph.time_mark_);
-    node["tk_h"] = format(eph.tk_h_);
-    node["tk_m"] = format(eph.tk_m_);
-    node["tk_s"] = format(eph.tk_s_);
-    node["tb"] = format(eph.tb_);
-    node["NT"] = format(eph.NT_);
-    node["N4"] = format(eph.N4_);
-    node["NA"] = format(eph.NA_);
     return node;
 }
 
-- 
2.43.0


From 0da1fc55a79813a0e5138f67526dec2a90e51e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 038/102] fix: two columns of a log stream cannot have the same
 name

The second replaced the description of the first, and the stream could not
be read back by its description.
---
 common/logging/log_format.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/logging/log_format.h b/common/logging/log_format.h
index 4e53773..3fddeab 100644
--- a/common/logging/log_format.h
+++ b/common/logging/log_format.h
@@ -129,6 +129,7 @@ YAML::Node __make_format_impl(const std::array<std::string, sizeof...(Args)>& na
     out["t"] = format(UTCTime(0));
     const auto fun = [&](const std::string& name, YAML::Node node) {
         check(name != "t", "Use of reserved field name 't'");
+        check(!out[name], "Two fields have the same name");
         out[name] = node;
         return 1;
     };
-- 
2.43.0


From 0d3c78a351cd67e8ed654a7f24b7b6ea30499fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 039/102] fix: a block or other matrix expression is logged
 coefficient by coefficient

The memory behind a block, a row or a transpose was written as it lies, so
other numbers than the ones given ended up in the log.
---
 common/logging/serialize.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/common/logging/serialize.h b/common/logging/serialize.h
index a4d2afa..ae4e0c5 100644
--- a/common/logging/serialize.h
+++ b/common/logging/serialize.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <Eigen/Core>
 #include <istream>
 #include <ostream>
 
@@ -32,6 +33,20 @@ class TwoJet;
 
 namespace logging {
 
+// A block, product or other expression, whose coefficients are not contiguous in memory
+template <typename T>
+struct is_expression
+{
+ private:
+    template <typename D>
+    static std::bool_constant<!std::is_base_of_v<Eigen::PlainObjectBase<D>, D>> test(
+        const Eigen::MatrixBase<D>*);
+    static std::false_type test(...);
+
+ public:
+    static constexpr bool value = decltype(test(std::declval<T*>()))::value;
+};
+
 void serialize(std::ostream& file, const UTCTime& t);
 void serialize(std::ostream& file, const QuantizedTime& t);
 void serialize(std::ostream& file, const ephemeris::GPSEphemeris& eph);
@@ -47,7 +62,12 @@ void serialize(std::ostream& file, const math::TwoJet<double>& x);
 template <typename T>
 void serialize(std::ostream& file, const T& data)
 {
-    if constexpr (utils::has_data<T>::value)
+    if constexpr (is_expression<T>::value)
+    {
+        const Eigen::Matrix<typename T::Scalar, T::RowsAtCompileTime, T::ColsAtCompileTime> x = data;
+        file.write((const char*)x.data(), sizeof(typename T::Scalar) * x.size());
+    }
+    else if constexpr (utils::has_data<T>::value)
     {
         file.write((const char*)data.data(), sizeof(decltype(*data.data())) * data.size());
     }
-- 
2.43.0


From fcb3283115f4f65b563d35572e82569b771fcbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 040/102] fix: the Python log reader reads fields called type,
 rows or cols

---
 common/logging/log_reader.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/common/logging/log_reader.py b/common/logging/log_reader.py
index 5a6ba97..c254c1e 100644
--- a/common/logging/log_reader.py
+++ b/common/logging/log_reader.py
@@ -20,12 +20,17 @@ DATATYPES = {
 }
 
 
+def is_leaf(format):
+    # "type" may also be the name of a field, which is described by a dictionary
+    return isinstance(format.get("type"), int)
+
+
 def make_dtype(format):
-    if "cols" in format.keys():
-        return (DATATYPES[format["type"]], (format["rows"], format["cols"]))
-    elif "rows" in format.keys():
-        return (DATATYPES[format["type"]], format["rows"])
-    elif "type" in format.keys():
+    if is_leaf(format):
+        if "cols" in format.keys():
+            return (DATATYPES[format["type"]], (format["rows"], format["cols"]))
+        elif "rows" in format.keys():
+            return (DATATYPES[format["type"]], format["rows"])
         return DATATYPES[format["type"]]
 
     if (len(format) == 1):
-- 
2.43.0


From d0ad0f65e7c05151c75babb7522a4bff7d0e8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 041/102] fix: the Python log reader reads matrices in the
 order they are logged

Matrices are written column by column; they were read row by row.
---
 common/logging/log_reader.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/logging/log_reader.py b/common/logging/log_reader.py
index c254c1e..e78191c 100644
--- a/common/logging/log_reader.py
+++ b/common/logging/log_reader.py
@@ -51,6 +51,16 @@ def load_header(hdr_path):
     return dtype
 
 
+def to_row_major(data):
+    # Matrices are logged column by column
+    if data.dtype.names is not None:
+        for name in data.dtype.names:
+            to_row_major(data[name])
+    elif data.ndim == 3:
+        n, rows, cols = data.shape
+        data[...] = data.reshape((n, cols, rows)).swapaxes(1, 2).copy()
+
+
 def get_log_files(file_path):
     if not re.search(r'\d{8}_\d{6}\/?$', file_path):
         raise RuntimeError(f"Incorrectly formatted log directory {file_path}")
@@ -89,6 +99,7 @@ def load(file_path, streams=None, normalize_time=True):
         print("loading {}".format(log_path))
         dtype = load_header(hdr_path)
         data = np.fromfile(log_path, dtype=dtype)
+        to_row_major(data)
 
         if normalize_time and 't' in data.dtype.fields:
             print("normalizing_time")
-- 
2.43.0


From 1aab02b85021ae56fb72b2d86aefdde1576f294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 042/102] fix: post_process describes the covariance it logs
 with each estimate

Every record had the covariance appended, which the description of the
stream did not mention, so that only the first record could be read back.
---
 tools/post_process.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index 72dd258..7a7bdd9 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -206,9 +206,10 @@ int main(int argc, char** argv)
     Vec1 fix_and_hold_cov(fix_and_hold_stdev * fix_and_hold_stdev);
 
     logging::Logger log_writer(x0.t, "../logs/post_process");
-    log_writer.initStream<math::DQuat<double>, Vec3, Vec3, Vec3, Vec3, Vec2, Vec2, Vec2>(
-        logging::ESTIMATE,
-        {"pose", "vel", "omg", "acc", "p_ecef", "gps_clk", "gal_clk", "glo_clk"});
+    log_writer
+        .initStream<math::DQuat<double>, Vec3, Vec3, Vec3, Vec3, Vec2, Vec2, Vec2, Mat<30>>(
+            logging::ESTIMATE,
+            {"pose", "vel", "omg", "acc", "p_ecef", "gps_clk", "gal_clk", "glo_clk", "cov"});
     log_writer.amends(log_reader.logPath());
 
     ekf.init(x0.t, x0, P0, point_pos_cov, obs_cov, fix_and_hold_cov, imu_cov, process_cov,
@@ -222,7 +223,7 @@ int main(int argc, char** argv)
         }
         log_writer.log(logging::ESTIMATE, ekf.t(), ekf.x().pose, ekf.x().vel, ekf.u().gyro,
                        ekf.u().accel, ekf.p_ecef(), ekf.x().gps_clk, ekf.x().gal_clk,
-                       ekf.x().glo_clk, ekf.cov());
+                       ekf.x().glo_clk, Mat<30>(ekf.cov().dense(0)));
 
         return Error::none();
     });
-- 
2.43.0


From 8a28026e3df640442995f4fc67863e312c4b6ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 043/102] fix: row-major matrices are logged in the order every
 other matrix is

The description gives rows and columns only, so a reader cannot tell that
the numbers of these types are in a different order.
---
 common/logging/serialize.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/common/logging/serialize.h b/common/logging/serialize.h
index ae4e0c5..cc876f4 100644
--- a/common/logging/serialize.h
+++ b/common/logging/serialize.h
@@ -33,6 +33,20 @@ class TwoJet;
 
 namespace logging {
 
+// A row-major matrix is logged column by column like any other
+template <typename T>
+struct is_row_major
+{
+ private:
+    template <typename D>
+    static std::bool_constant<(D::IsRowMajor && !D::IsVectorAtCompileTime)> test(
+        const Eigen::PlainObjectBase<D>*);
+    static std::false_type test(...);
+
+ public:
+    static constexpr bool value = decltype(test(std::declval<T*>()))::value;
+};
+
 // A block, product or other expression, whose coefficients are not contiguous in memory
 template <typename T>
 struct is_expression
@@ -62,7 +76,7 @@ void serialize(std::ostream& file, const math::TwoJet<double>& x);
 template <typename T>
 void serialize(std::ostream& file, const T& data)
 {
-    if constexpr (is_expression<T>::value)
+    if constexpr (is_expression<T>::value || is_row_major<T>::value)
     {
         const Eigen::Matrix<typename T::Scalar, T::RowsAtCompileTime, T::ColsAtCompileTime> x = data;
         file.write((const char*)x.data(), sizeof(typename T::Scalar) * x.size());
@@ -98,7 +112,13 @@ void deserialize(std::istream& file, math::TwoJet<double>& x);
 template <typename T>
 void deserialize(std::istream& file, T& x)
 {
-    if constexpr (utils::has_data<T>::value)
+    if constexpr (is_row_major<T>::value)
+    {
+        Eigen::Matrix<typename T::Scalar, T::RowsAtCompileTime, T::ColsAtCompileTime> y = x;
+        deserialize(file, y);
+        x = y;
+    }
+    else if constexpr (utils::has_data<T>::value)
     {
         file.read(reinterpret_cast<char*>(x.data()), sizeof(decltype(*x.data())) * x.size());
     }
-- 
2.43.0


From bdf1637474775c25696f4b5c8e70f9d631bf6927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 044/102] fix: normalising time in the Python log reader leaves
 nested fields alone

The time of a logged inertial sample or observation was renamed as well.
---
 common/logging/log_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/logging/log_reader.py b/common/logging/log_reader.py
index e78191c..592371c 100644
--- a/common/logging/log_reader.py
+++ b/common/logging/log_reader.py
@@ -103,7 +103,8 @@ def load(file_path, streams=None, normalize_time=True):
 
         if normalize_time and 't' in data.dtype.fields:
             print("normalizing_time")
-            data = numpy.lib.recfunctions.rename_fields(data, {"t": "stamp"})
+            # only the stamp of the record: fields of other columns keep their names
+            data.dtype.names = tuple("stamp" if n == "t" else n for n in data.dtype.names)
             data = numpy.lib.recfunctions.append_fields(
                 data,
                 't',
-- 
2.43.0


From 7c98600fc9c47118d7462b43d1ada08b9c1de99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:15 +0000
Subject: [PATCH 045/102] fix: correct the preintegrated motion for the change
 of bias, not for the whole bias

---
 models/imu_model.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index e94b661..ef3a9b2 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -165,7 +165,7 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
 
     Map<Vec9> residual(_res);
 
-    const ImuErrorState bias_adjustment = dStatedBias() * bias;  //(bias - bias_);
+    const ImuErrorState bias_adjustment = dStatedBias() * (bias - bias_);
     ImuState adjusted_state = state() + bias_adjustment;
 
     const double dt = delta_t();
-- 
2.43.0


From 080f4a33d1cb557194171b94e635f4017b1c1498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:15 +0000
Subject: [PATCH 046/102] fix: the inertial model keeps its own copy of the
 noise covariance

---
 models/imu_model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/imu_model.h b/models/imu_model.h
index e319def..e90ef9a 100644
--- a/models/imu_model.h
+++ b/models/imu_model.h
@@ -71,7 +71,7 @@ class ImuModel
 
  private:
     Vec6 bias_;      // Imu Bias
-    const Vec6& R_;  // IMU covariance diagonal
+    Vec6 R_;         // IMU covariance diagonal
 
     Mat9 covariance_inv_sqrt_;
 
-- 
2.43.0


From 2b6544901a309a0fca8f16c7efeed8b9d74a3974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 047/102] fix: split an inertial interval anywhere, without gap
 or overlap between its parts

---
 models/imu_model.cxx | 43 +++++++++++++++++++++++++++++--------------
 models/imu_model.h   |  2 ++
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index ef3a9b2..ef028ed 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -78,15 +78,22 @@ void ImuModel::dynamics(const ImuState& state,
 }
 
 Error ImuModel::integrate(const meas::ImuSample& imu)
+{
+    const double dt = (imu.t - tf()).toSec();
+    check(dt >= TIME_QUANTIZATION,
+          "IMU Samples must be in order, and spaced more than {}s apart (dt = {})",
+          fmt(TIME_QUANTIZATION, dt));
+
+    return propagate(imu);
+}
+
+Error ImuModel::propagate(const meas::ImuSample& imu)
 {
     check(isFinite(R_), "NaN detected in covariance on propagation");
     check(isFinite(imu.accel), "NaN detected in imu acceleration data");
     check(isFinite(imu.gyro), "NaN detected in imu gyroscope data");
 
-    double dt = (imu.t - tf()).toSec();
-    check(dt >= TIME_QUANTIZATION,
-          "IMU Samples must be in order, and spaced more than {}s apart (dt = {})",
-          fmt(TIME_QUANTIZATION, dt));
+    const double dt = (imu.t - tf()).toSec();
 
     ImuErrorState dstate;
     Mat9 A;
@@ -309,19 +316,27 @@ ImuModel ImuModel::split(const UTCTime& t)
 
     auto this_end = it;
     auto prev_it = (it - 1);
-    double dt = (it->z.t - prev_it->z.t).toSec();
-    double l = (t - prev_it->z.t).toSec();
-    double scale = l / dt;
 
-    meas::ImuSample split_sample;
-    split_sample.accel = scale * it->z.accel + (1.0 - scale) * prev_it->z.accel;
-    split_sample.gyro = scale * it->z.gyro + (1.0 - scale) * prev_it->z.gyro;
-    split_sample.t = t_split;
+    // If the split happens directly on a sample boundary, then both intervals meet at that sample
+    const bool on_boundary = (t_split == prev_it->z.t);
+
+    meas::ImuSample split_sample = prev_it->z;
+    if (!on_boundary)
+    {
+        double dt = (it->z.t - prev_it->z.t).toSec();
+        double l = (t - prev_it->z.t).toSec();
+        double scale = l / dt;
+
+        split_sample.accel = scale * it->z.accel + (1.0 - scale) * prev_it->z.accel;
+        split_sample.gyro = scale * it->z.gyro + (1.0 - scale) * prev_it->z.gyro;
+        split_sample.t = t_split;
+    }
 
+    // The split may be closer to a sample than two samples may be to each other
     ImuModel second(split_sample, bias_, R_);
     while (it != history_.end())
     {
-        second.integrate(it->z);
+        second.propagate(it->z);
         ++it;
     }
 
@@ -330,9 +345,9 @@ ImuModel ImuModel::split(const UTCTime& t)
 
     // If the split didn't happen directly on a sample boundary, then re-do the last sample in the
     // series so the end time is correct
-    if (t_split != history_.back().z.t)
+    if (!on_boundary)
     {
-        integrate(split_sample);
+        propagate(split_sample);
     }
 
     return second;
diff --git a/models/imu_model.h b/models/imu_model.h
index e90ef9a..a4dc0fa 100644
--- a/models/imu_model.h
+++ b/models/imu_model.h
@@ -70,6 +70,8 @@ class ImuModel
     const auto gyroBias() const { return bias_.tail<3>(); }
 
  private:
+    Error propagate(const meas::ImuSample& u);
+
     Vec6 bias_;      // Imu Bias
     Vec6 R_;         // IMU covariance diagonal
 
-- 
2.43.0


From 331f23f0c8ca2cc2e50646b3a3169fbc4d4e67a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 048/102] fix: a copied inertial error state views its own
 elements

---
 models/imu_state.cxx | 6 ++++++
 models/imu_state.h   | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/models/imu_state.cxx b/models/imu_state.cxx
index 73b495c..d6ae92f 100644
--- a/models/imu_state.cxx
+++ b/models/imu_state.cxx
@@ -54,6 +54,12 @@ ImuState& ImuState::operator+=(const ImuErrorState& dstate)
 
 ImuErrorState::ImuErrorState() : alpha(data()), beta(data() + 3), gamma(data() + 6) {}
 
+// The parts view this object's own elements, not those of the original
+ImuErrorState::ImuErrorState(const ImuErrorState& other)
+    : Vec9(other), alpha(data()), beta(data() + 3), gamma(data() + 6)
+{
+}
+
 // x1 + exp(dx) = x2
 // x2 = x1 * exp(dx)
 // x1⁻¹ ⋅ x2 = exp(dx)
diff --git a/models/imu_state.h b/models/imu_state.h
index 2a1d9f5..d9ae17a 100644
--- a/models/imu_state.h
+++ b/models/imu_state.h
@@ -10,6 +10,7 @@ namespace models {
 struct ImuErrorState : public Vec9
 {
     ImuErrorState();
+    ImuErrorState(const ImuErrorState& other);
 
     template <typename Derived>
     ImuErrorState(const Eigen::MatrixBase<Derived>& other)
@@ -29,6 +30,12 @@ struct ImuErrorState : public Vec9
         Vec9::operator=(other);
         return *this;
     }
+
+    ImuErrorState& operator=(const ImuErrorState& other)
+    {
+        Vec9::operator=(other);
+        return *this;
+    }
 };
 
 struct ImuState
-- 
2.43.0


From 83d86e0ac5547ae8876881c470fa75f5a3829efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 049/102] fix: inertial factor pose derivatives hold away from
 the identity

---
 models/imu_model.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index ef028ed..8c4c9ce 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -151,6 +151,7 @@ struct PoseJacobian
     auto dr2_dpos() { return mat.block<3, 3>(3, 3); }
     auto dr3_dpos() { return mat.block<3, 3>(6, 3); }
 
+    // The blocks are with respect to motions expressed in the moving body's own frame
     void linearize_local_param(const math::DQuat<double>& Q)
     {
         mat = mat.block<9, 6>(0, 0) * Q.dGenDParam();
@@ -198,9 +199,9 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
             jac.dr1_drot() = skew(start_pose.rotation().rotp(
                 end_pose.translation() - start_pose.translation() - 0.5 * GRAVITY * dt * dt));
             jac.dr2_drot() = -dt * skew(start_pose.rotation().rotp(GRAVITY));
-            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R();
 
-            jac.dr1_dpos() = -start_pose.rotation().R().matrix();
+            jac.dr1_dpos() = -Mat3::Identity();
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
@@ -213,9 +214,10 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
 
             jac.dr1_drot().setZero();
             jac.dr2_drot().setZero();
-            jac.dr3_drot() = log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            jac.dr3_drot() = log_jac.transpose();
 
-            jac.dr1_dpos() = start_pose.rotation().R().matrix();
+            jac.dr1_dpos() = start_pose.rotation().R().matrix() *
+                             end_pose.rotation().R().matrix().transpose();
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
-- 
2.43.0


From dbbe62874f662440696767523d66af3c4e0316a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 050/102] fix: satellite measurement models keep their own copy
 of the reference frame

---
 models/prange_model.h                 | 2 +-
 models/relative_carrier_phase_model.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/prange_model.h b/models/prange_model.h
index 77a1107..8180344 100644
--- a/models/prange_model.h
+++ b/models/prange_model.h
@@ -30,7 +30,7 @@ class PseudorangeModel
 
     meas::GnssObservation obs_;
     Mat3 sqrt_inv_cov_;
-    const math::DQuat<double>& T_e2r_;
+    const math::DQuat<double> T_e2r_;
 };
 
 }  // namespace models
diff --git a/models/relative_carrier_phase_model.h b/models/relative_carrier_phase_model.h
index 9ce8973..0823eba 100644
--- a/models/relative_carrier_phase_model.h
+++ b/models/relative_carrier_phase_model.h
@@ -33,7 +33,7 @@ class RelativeCarrierPhase
     const double Xi_;      // sqrt inverse variance
     satellite::SatelliteState sat1_;
     satellite::SatelliteState sat2_;
-    const math::DQuat<double>& T_e2r_;
+    const math::DQuat<double> T_e2r_;
 };
 
 }  // namespace models
-- 
2.43.0


From 0962ab8be599e43b00a7b10464f63561e5725152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 051/102] fix: the clock dynamics model keeps its own copy of
 its weights

---
 models/gnss_dynamics_model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/gnss_dynamics_model.h b/models/gnss_dynamics_model.h
index fbc68fa..0231096 100644
--- a/models/gnss_dynamics_model.h
+++ b/models/gnss_dynamics_model.h
@@ -17,7 +17,7 @@ class GnssDynamics
 
  private:
     const double dt_;
-    const Vec3& Xi_;  // diagonal of sqrt inverse covariance
+    const Vec3 Xi_;  // diagonal of sqrt inverse covariance
 };
 
 }  // namespace models
-- 
2.43.0


From 3ea04012f6e785a216da5a42a1d6a553f7dadc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 052/102] fix: whiten every derivative of the pseudorange model
 by the whole covariance

---
 models/prange_model.cxx | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/models/prange_model.cxx b/models/prange_model.cxx
index 9837e0c..23c2ac0 100644
--- a/models/prange_model.cxx
+++ b/models/prange_model.cxx
@@ -66,7 +66,9 @@ struct PoseJacobian final : public MatRM36
 template <int N>
 struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::RowMajor>>
 {
-    VecJacobian(double* ptr) : Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::RowMajor>>(ptr) {}
+    using Base = Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::RowMajor>>;
+    using Base::operator=;
+    VecJacobian(double* ptr) : Base(ptr) {}
     auto drho() { return this->row(0); }
     auto ddop() { return this->row(1); }
     auto dsw() { return this->row(2); }
@@ -132,17 +134,19 @@ bool PseudorangeModel::Evaluate(const double* const* parameters,
         {
             VecJacobian<3> jac(jacobians[1]);
             jac.drho().setZero();
-            jac.ddop() = sw_var * -e.T * sqrt_inv_cov_(1, 1) * R_E2n.T * R_n2b.T;
+            jac.ddop() = sw_var * -e.T * R_E2n.T * R_n2b.T;
             jac.dsw().setZero();
+            jac = sqrt_inv_cov_ * jac;
         }
 
         // res_by_clk
         if (jacobians[2])
         {
             VecJacobian<2> jac(jacobians[2]);
-            jac.drho() << sw_var * C_LIGHT / 1e9 * sqrt_inv_cov_(0, 0), 0;
-            jac.ddop() << 0, sw_var * C_LIGHT / 1e9 * sqrt_inv_cov_(1, 1);
+            jac.drho() << sw_var * C_LIGHT / 1e9, 0;
+            jac.ddop() << 0, sw_var * C_LIGHT / 1e9;
             jac.dsw().setZero();
+            jac = sqrt_inv_cov_ * jac;
         }
 
         // res_by_T_r2n
@@ -162,17 +166,19 @@ bool PseudorangeModel::Evaluate(const double* const* parameters,
         if (jacobians[4])
         {
             Eigen::Map<Vec3> jac(jacobians[4]);
-            jac(0) = sqrt_inv_cov_(0, 0) * (est_prange - obs_.pseudorange);
-            jac(1) = sqrt_inv_cov_(1, 1) * (est_doppler - obs_.doppler);
-            jac(2) = -sqrt_inv_cov_(2, 2);
+            jac(0) = est_prange - obs_.pseudorange;
+            jac(1) = est_doppler - obs_.doppler;
+            jac(2) = -1.0;
+            jac = sqrt_inv_cov_ * jac;
         }
         // res_by_p_b2g
         if (jacobians[5])
         {
             VecJacobian<3> jac(jacobians[5]);
-            jac.drho() = -sw_var * sqrt_inv_cov_(0, 0) * e.T * R_e2r.T * R_r2n.T * R_n2b.T;
+            jac.drho() = -sw_var * e.T * R_e2r.T * R_r2n.T * R_n2b.T;
             jac.ddop().setZero();
             jac.dsw().setZero();
+            jac = sqrt_inv_cov_ * jac;
         }
     }
 
-- 
2.43.0


From ebe2389fbf867413c55fc4ffbb646a5db5e8301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 053/102] fix: split integer parts of any size in modf

---
 common/matrix_defs.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/common/matrix_defs.h b/common/matrix_defs.h
index 9859b6a..a5611a5 100644
--- a/common/matrix_defs.h
+++ b/common/matrix_defs.h
@@ -2,6 +2,7 @@
 #pragma once
 
 #include <Eigen/Core>
+#include <cmath>
 #include <vector>
 
 namespace mc {
@@ -188,21 +189,15 @@ Eigen::VectorXd argsort(const Eigen::MatrixBase<Derived>& x)
 template <typename Derived>
 Derived modf(const Derived& x, Derived* intpart)
 {
-    Eigen::Matrix<int, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime> int_cast =
-        x.template cast<int>();
-    (*intpart) = int_cast.template cast<double>();
+    (*intpart) = x.unaryExpr([](const typename Derived::Scalar& v) { return std::trunc(v); });
     return x - (*intpart);
 }
 
 template <typename Derived>
 Derived modf(const Derived& x)
 {
-    Eigen::Matrix<int, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime> int_cast =
-        x.template cast<int>();
-    Eigen::Matrix<double, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime> floored =
-        int_cast.template cast<double>();
-
-    return x - floored;
+    Derived intpart;
+    return modf(x, &intpart);
 }
 
 namespace detail {
-- 
2.43.0


From b195db471efa29e44ff3387e47443e2df586c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 054/102] fix: hold the PID integrator back while the output is
 saturated

---
 sim/controllers/pid.cxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sim/controllers/pid.cxx b/sim/controllers/pid.cxx
index f0b1744..f622dfe 100644
--- a/sim/controllers/pid.cxx
+++ b/sim/controllers/pid.cxx
@@ -1,6 +1,6 @@
 #include "sim/controllers/pid.h"
 
-#include <cmath>
+#include <algorithm>
 
 namespace mc {
 namespace sim {
@@ -36,7 +36,6 @@ double PID::run(double dt, double x, double x_c, bool update_integrator)
 
 double PID::run(double dt, double x, double x_c, bool update_integrator, double xdot)
 {
-    using std::abs;
     // Calculate Error
     double error = x_c - x;
 
@@ -67,8 +66,14 @@ double PID::run(double dt, double x, double x_c, bool update_integrator, double
     double u_sat = (u > options_.max)
                        ? options_.max
                        : (u < (double)-1.0 * options_.max) ? (double)-1.0 * options_.max : u;
-    if (u != u_sat && abs(i_term) > abs(u - p_term + d_term) && options_.ki > (double)0.0)
-        integrator_ = (u_sat - p_term + d_term) / options_.ki;
+    if (u > u_sat && i_term > 0.0)
+    {
+        integrator_ = std::max(0.0, u_sat - p_term + d_term) / options_.ki;
+    }
+    else if (u < u_sat && i_term < 0.0)
+    {
+        integrator_ = std::min(0.0, u_sat - p_term + d_term) / options_.ki;
+    }
 
     // Set output
     return u_sat;
-- 
2.43.0


From 06e4a88ff74ed3fc46ba35faea29cbe0f16cf9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 055/102] fix: start the waypoint follower at the first
 waypoint

---
 sim/dynamics/car.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/dynamics/car.cxx b/sim/dynamics/car.cxx
index 4192239..a743944 100644
--- a/sim/dynamics/car.cxx
+++ b/sim/dynamics/car.cxx
@@ -46,7 +46,7 @@ Vec2 SimCar::controller(const UTCTime& t, const Vec2& vw)
 }
 
 SimCar::WaypointFollower::WaypointFollower(const SimCar::WaypointFollower::Options& options)
-    : options_(options)
+    : options_(options), current_waypoint_(0)
 {
     check(!options_.waypoints.empty(), "Waypoints cannot be empty");
 }
-- 
2.43.0


From 28582354fb2d8dcd4ff9d902fe967bce2a975576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 056/102] fix: turn towards a waypoint behind the car, no
 faster than the speed limit

---
 sim/dynamics/car.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sim/dynamics/car.cxx b/sim/dynamics/car.cxx
index a743944..bb737b1 100644
--- a/sim/dynamics/car.cxx
+++ b/sim/dynamics/car.cxx
@@ -70,9 +70,16 @@ Vec2 SimCar::WaypointFollower::follow(const math::DQuat<double>& current_state)
 
     double vel;
     double w;
-    if (abs(xi) > std::asin(deg2Rad(15)))
+    const double slow = std::min(1.0, options_.max_speed);
+    if (d < 0.0)
     {
-        vel = 1.0;
+        // facing away, turn around first
+        vel = slow;
+        w = xi < 0.0 ? options_.max_omega : -options_.max_omega;
+    }
+    else if (abs(xi) > std::asin(deg2Rad(15)))
+    {
+        vel = slow;
         w = -options_.max_omega * xi;
     }
     else
-- 
2.43.0


From 5874ead07d335f8dc0bc23aad9168b99b6240372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 057/102] fix: move the simulated body by the acceleration of
 this step

---
 sim/dynamics/dynamics.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/dynamics/dynamics.cxx b/sim/dynamics/dynamics.cxx
index 0a91039..3b18fc8 100644
--- a/sim/dynamics/dynamics.cxx
+++ b/sim/dynamics/dynamics.cxx
@@ -14,7 +14,7 @@ Dynamics::Dynamics(const UTCTime& t, const Options& options) : options_(options)
 math::TwoJet<double> plus(const math::TwoJet<double>& x, const Vec6& d2x, const double dt)
 {
     math::TwoJet<double> out;
-    out.x = x.x * math::DQuat<double>::exp(x.dx * dt + x.d2x * dt * dt * 0.5);
+    out.x = x.x * math::DQuat<double>::exp(x.dx * dt + d2x * dt * dt * 0.5);
     out.dx = x.dx + d2x * dt;
     out.d2x = d2x;
     return out;
-- 
2.43.0


From 5c20139a3fb17fd9fd9eeb49bee50c6b8ee2d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 058/102] fix: wander the simulated IMU biases by the walk, not
 the noise

---
 sim/sensors/imu.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim/sensors/imu.cxx b/sim/sensors/imu.cxx
index 2364c3d..22328b1 100644
--- a/sim/sensors/imu.cxx
+++ b/sim/sensors/imu.cxx
@@ -22,8 +22,8 @@ bool ImuSim::sample(const UTCTime& t, const math::TwoJet<double>& x, Out<meas::I
     {
         prev_t_ = t;
 
-        accel_bias_ += randomNormal<Vec3>() * options_.accel_noise_stdev * dt;
-        gyro_bias_ += randomNormal<Vec3>() * options_.gyro_noise_stdev * dt;
+        accel_bias_ += randomNormal<Vec3>() * options_.accel_walk_stdev * dt;
+        gyro_bias_ += randomNormal<Vec3>() * options_.gyro_walk_stdev * dt;
 
         imu->accel = x.d2x.linear() + accel_bias_ +
                      randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rota(GRAVITY);
-- 
2.43.0


From ed41db94782b01f0f5d53f4cfe4c0f4fe86dec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 059/102] fix: simulate the specific force in the body frame

---
 sim/sensors/imu.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sim/sensors/imu.cxx b/sim/sensors/imu.cxx
index 22328b1..3f732e8 100644
--- a/sim/sensors/imu.cxx
+++ b/sim/sensors/imu.cxx
@@ -25,8 +25,9 @@ bool ImuSim::sample(const UTCTime& t, const math::TwoJet<double>& x, Out<meas::I
         accel_bias_ += randomNormal<Vec3>() * options_.accel_walk_stdev * dt;
         gyro_bias_ += randomNormal<Vec3>() * options_.gyro_walk_stdev * dt;
 
-        imu->accel = x.d2x.linear() + accel_bias_ +
-                     randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rota(GRAVITY);
+        const Vec3 acceleration = x.d2x.linear() + x.dx.angular().cross(x.dx.linear());
+        imu->accel = acceleration + accel_bias_ +
+                     randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rotp(GRAVITY);
         imu->gyro = x.dx.angular() + gyro_bias_ + randomNormal<Vec3>() * options_.gyro_noise_stdev;
         imu->t = t;
         return true;
-- 
2.43.0


From f67a82cd4cf9e0f2a499df1f1d89fd9b7a03fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 060/102] fix: hand out simulated ephemerides when they are
 due, until none is left

---
 sim/sensors/gnss.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index 4128fe9..df44ac3 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -147,7 +147,7 @@ bool GnssSim::sample(const UTCTime& t,
 
 bool GnssSim::sampleGpsEph(const UTCTime& t, Out<ephemeris::GPSEphemeris> eph)
 {
-    if (std::get<UTCTime>(gps_ephemerides_.front()) >= t)
+    if (!gps_ephemerides_.empty() && std::get<UTCTime>(gps_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GPSEphemeris>(gps_ephemerides_.front());
         gps_ephemerides_.erase(gps_ephemerides_.begin());
@@ -158,7 +158,7 @@ bool GnssSim::sampleGpsEph(const UTCTime& t, Out<ephemeris::GPSEphemeris> eph)
 }
 bool GnssSim::sampleGloEph(const UTCTime& t, Out<ephemeris::GlonassEphemeris> eph)
 {
-    if (std::get<UTCTime>(glo_ephemerides_.front()) >= t)
+    if (!glo_ephemerides_.empty() && std::get<UTCTime>(glo_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GlonassEphemeris>(glo_ephemerides_.front());
         glo_ephemerides_.erase(glo_ephemerides_.begin());
@@ -169,7 +169,7 @@ bool GnssSim::sampleGloEph(const UTCTime& t, Out<ephemeris::GlonassEphemeris> ep
 }
 bool GnssSim::sampleGalEph(const UTCTime& t, Out<ephemeris::GalileoEphemeris> eph)
 {
-    if (std::get<UTCTime>(gal_ephemerides_.front()) >= t)
+    if (!gal_ephemerides_.empty() && std::get<UTCTime>(gal_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GalileoEphemeris>(gal_ephemerides_.front());
         gal_ephemerides_.erase(gal_ephemerides_.begin());
-- 
2.43.0


From 8286719d2829f1f7de957d8abff3bbf9917a03c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 061/102] fix: sign of the Sagnac term in the simulated Doppler

---
 sim/sensors/gnss.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index df44ac3..fdd0d53 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -219,8 +219,8 @@ void GnssSim::range(const UTCTime& t,
     *pseudorange = range + atm.ionospheric_delay_m + atm.tropospheric_delay_m + C_LIGHT * dclock;
     *doppler = (sat_state.vel - vel_ecef).dot(los_to_sat / range) +
                OMEGA_EARTH / C_LIGHT *
-                   (sat_state.vel.y() * p_ecef.x() + sat_state.pos.y() * vel_ecef.x() -
-                    sat_state.vel.x() * p_ecef.y() - sat_state.pos.x() * vel_ecef.y()) +
+                   (sat_state.vel.x() * p_ecef.y() + sat_state.pos.x() * vel_ecef.y() -
+                    sat_state.vel.y() * p_ecef.x() - sat_state.pos.y() * vel_ecef.x()) +
                C_LIGHT * dclock_rate;
 }
 
-- 
2.43.0


From 4aa215a572a9de3a1c72b8408b4c431ff76546f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 062/102] fix: stamp simulated observations with their time

---
 sim/sensors/gnss.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index fdd0d53..9685703 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -132,6 +132,7 @@ bool GnssSim::sample(const UTCTime& t,
             doppler += normal_(gen_) * options_.doppler_stdev_;
 
             obs->emplace_back();
+            obs->back().t = t;
             obs->back().pseudorange = pseudorange;
             obs->back().doppler = doppler;
             obs->back().carrier_phase = carrier_phase;
-- 
2.43.0


From 2fcc9cb25d2dd4d4637c6d148abf73aedd3ea4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 063/102] fix: project the simulated range rate on the line of
 sight

---
 sim/sensors/gnss.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index 9685703..a2671ca 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -218,7 +218,7 @@ void GnssSim::range(const UTCTime& t,
     const double dclock_rate = clock_bias_(1) - sat_state.clk(1);
 
     *pseudorange = range + atm.ionospheric_delay_m + atm.tropospheric_delay_m + C_LIGHT * dclock;
-    *doppler = (sat_state.vel - vel_ecef).dot(los_to_sat / range) +
+    *doppler = (sat_state.vel - vel_ecef).dot(los_to_sat.normalized()) +
                OMEGA_EARTH / C_LIGHT *
                    (sat_state.vel.x() * p_ecef.y() + sat_state.pos.x() * vel_ecef.y() -
                     sat_state.vel.y() * p_ecef.x() - sat_state.pos.y() * vel_ecef.x()) +
-- 
2.43.0


From 694c88330060add5ac1e850332ded91daea4d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 064/102] fix: predict each observation with the clock of its
 own constellation

---
 core/ekf/rtk_ekf_estimator.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index d3a6969..bf72033 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -154,7 +154,7 @@ void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
     for (const auto& o : obs_bundle)
     {
         check(o.t == meas_time, "all measurement timestamps in a GNSS bundle must match");
-        z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num)});
+        z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num), o.gnss_id});
     }
 
     const auto res = update<obsMeas>(make_out(snap()), z, obs_cov_, u());
-- 
2.43.0


From 5f14c0b99f5f2657c479311a520f834bd570ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 065/102] fix: ignore an inertial measurement at the time of
 the newest state instead of stopping

---
 core/ekf/rtk_ekf_estimator.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index bf72033..6010f20 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -93,7 +93,7 @@ void RtkEkfEstimator::handleImu(const UTCTime& meas_time, const ImuMeas& z)
 
 void RtkEkfEstimator::handleImu(const UTCTime& meas_time, const Input& z)
 {
-    if (meas_time > t())
+    if (meas_time > t().quantized())
     {
         Snapshot& snap = states_.back();
         states_.emplace_back();
-- 
2.43.0


From 7863edde8d96cd8b89ce9b1f60e5dec0ed58e23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 066/102] fix: apply every measurement exactly once when
 rewinding the filter

---
 core/ekf/rtk_ekf_estimator.cxx |  6 ++++++
 core/ekf/rtk_ekf_estimator.h   | 31 +++++++++++++++++++++----------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index 6010f20..05b00cf 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -182,6 +182,12 @@ void RtkEkfEstimator::handleMeas(const Meas& meas)
                meas.z);
 }
 
+bool RtkEkfEstimator::includes(const Snapshot& snapshot, const Meas& meas) const
+{
+    // measurements at the same (quantized) time as a snapshot are applied on top of it
+    return !(meas.t > snapshot.x.t);
+}
+
 const RtkEkfEstimator::Meas& RtkEkfEstimator::rollFilter(const MeasIterator& start,
                                                          const MeasIterator& end)
 {
diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index 4037f19..dc7ddd8 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -116,21 +116,29 @@ class RtkEkfEstimator
             }
         }
 
-        auto it = measurements_.insert(Meas{meas_time, z});
+        const Meas meas{meas_time, z};
+        const MeasIterator next = measurements_.upper_bound(meas);
+        if (next != measurements_.end() && includes(states_.front(), *next))
+        {
+            error("Unable to rewind far enough to handle measurement with time {}", fmt(meas_time));
+            return Error::create("cannot handle stale measurement");
+        }
 
-        if (meas_time < t())
+        // Out-of-order measurement.  Rewind past every measurement which has to be applied after it
+        while (next != measurements_.end() && includes(states_.back(), *next))
         {
-            // Out-of-order measurement.  We need to rewind to apply it.
-            MeasIterator catchup_begin = measurements_.lower_bound(Meas{meas_time, {}});
+            states_.pop_back();
+        }
 
-            // rewind the state buffer
-            while (t() > catchup_begin->t)
-            {
-                states_.pop_back();
-            }
+        // Re-apply everything that the rewind removed, but nothing the state already includes
+        auto start = measurements_.lower_bound(Meas{t(), {}});
+        while (start != next && includes(states_.back(), *start))
+        {
+            ++start;
         }
 
-        rollFilter(it, measurements_.end());
+        const MeasIterator it = measurements_.insert(next, meas);
+        rollFilter(start == next ? it : start, measurements_.end());
 
         dropOldMeasurements();
 
@@ -152,6 +160,9 @@ class RtkEkfEstimator
 
     void handleMeas(const Meas& meas);
 
+    // has this (already processed) measurement contributed to the snapshot?
+    bool includes(const Snapshot& snapshot, const Meas& meas) const;
+
     const Meas& rollFilter(const MeasIterator& start, const MeasIterator& end);
 
     const Snapshot& snap() const { return states_.back(); }
-- 
2.43.0


From fbb54985e82d5af961fe0822c0a7f15f1adc65e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 067/102] fix: refuse measurements the filter cannot apply
 instead of stopping

---
 core/ekf/rtk_ekf_estimator.cxx | 65 ++++++++++++++++++++++++++++++++--
 core/ekf/rtk_ekf_estimator.h   | 20 ++++++-----
 2 files changed, 73 insertions(+), 12 deletions(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index 05b00cf..12b775f 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -73,6 +73,58 @@ bool RtkEkfEstimator::hasCache(int gnss_id, int sat_num) const
     return sat_cache_.find(cacheId(gnss_id, sat_num)) != sat_cache_.end();
 }
 
+bool RtkEkfEstimator::hasSatellite(int gnss_id, int sat_num) const
+{
+    const satellite::SatelliteBase* sat;
+    return hasCache(gnss_id, sat_num) &&
+           sat_manager_.getSat(gnss_id, sat_num, make_out(sat)).ok() && sat->almanacSize() > 0;
+}
+
+Error RtkEkfEstimator::validate(const UTCTime&, const ImuMeas& z) const
+{
+    return isFinite(z.z) ? Error::none() : Error::create("measurement is not finite");
+}
+
+Error RtkEkfEstimator::validate(const UTCTime&, const pointPosMeas& z) const
+{
+    return isFinite(z.z) ? Error::none() : Error::create("measurement is not finite");
+}
+
+Error RtkEkfEstimator::validate(const UTCTime&, const fixAndHoldMeas& z) const
+{
+    if (z.z.size() != x().num_sd)
+    {
+        return Error::create("number of fix-and-hold measurements does not match the state");
+    }
+    return isFinite(z.z) ? Error::none() : Error::create("measurement is not finite");
+}
+
+Error RtkEkfEstimator::validate(const UTCTime& meas_time,
+                                const std::vector<meas::GnssObservation>& obs_bundle) const
+{
+    if (obs_bundle.size() * Vec2::RowsAtCompileTime > obsMeas::MAX_SIZE)
+    {
+        return Error::create("too many observations in a GNSS bundle");
+    }
+    for (const auto& obs : obs_bundle)
+    {
+        if (obs.t != meas_time)
+        {
+            return Error::create("all measurement timestamps in a GNSS bundle must match");
+        }
+        if (!std::isfinite(obs.pseudorange) || !std::isfinite(obs.doppler))
+        {
+            return Error::create("measurement is not finite");
+        }
+        if (!hasSatellite(obs.gnss_id, obs.sat_num))
+        {
+            warn("Unknown {} Satellite {}", fmt(obs.gnss_id, obs.sat_num));
+            return Error::create("Unknown satellite");
+        }
+    }
+    return Error::none();
+}
+
 const satellite::SatelliteCache& RtkEkfEstimator::getCache(const UTCTime& t,
                                                            int gnss_id,
                                                            int sat_id) const
@@ -150,11 +202,19 @@ void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
         handleImu(meas_time, u());
     }
     obsMeas::ZType z;
+    std::vector<int> sat_ids;
     z.reserve(obs_bundle.size());
     for (const auto& o : obs_bundle)
     {
         check(o.t == meas_time, "all measurement timestamps in a GNSS bundle must match");
-        z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num), o.gnss_id});
+        if (!hasSatellite(o.gnss_id, o.sat_num))
+        {
+            warn("Lost {} Satellite {}", fmt(o.gnss_id, o.sat_num));
+            continue;
+        }
+        z.push_back(
+            {Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num), o.gnss_id});
+        sat_ids.push_back(o.sat_num);
     }
 
     const auto res = update<obsMeas>(make_out(snap()), z, obs_cov_, u());
@@ -165,8 +225,7 @@ void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
             const Vec2& z_i = z[i].z;
             const Vec2 residual_i = res.res().segment<2>(i * 2);
             const Vec2 zhat = z_i - residual_i;
-            const int sat_id = obs_bundle[i].sat_num;
-            log_->log(logging::GPS_OBS_RESIDUAL, meas_time, sat_id, residual_i, z_i, zhat);
+            log_->log(logging::GPS_OBS_RESIDUAL, meas_time, sat_ids[i], residual_i, z_i, zhat);
         }
     }
 }
diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index dc7ddd8..4dbaaba 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -104,16 +104,10 @@ class RtkEkfEstimator
             return Error::create("cannot handle stale measurement");
         }
 
-        if constexpr (std::is_same_v<T, std::vector<meas::GnssObservation>>)
+        const Error valid = validate(meas_time, z);
+        if (!valid.ok())
         {
-            for (const auto& obs : z)
-            {
-                if (!hasCache(obs.gnss_id, obs.sat_num))
-                {
-                    warn("Unknown {} Satellite {}", fmt(obs.gnss_id, obs.sat_num));
-                    return Error::create("Unknown satellite");
-                }
-            }
+            return valid;
         }
 
         const Meas meas{meas_time, z};
@@ -145,9 +139,17 @@ class RtkEkfEstimator
         return Error::none();
     }
 
+    // Can this measurement be applied by the filter?
+    Error validate(const UTCTime& meas_time, const ImuMeas& z) const;
+    Error validate(const UTCTime& meas_time, const pointPosMeas& z) const;
+    Error validate(const UTCTime& meas_time, const fixAndHoldMeas& z) const;
+    Error validate(const UTCTime& meas_time,
+                   const std::vector<meas::GnssObservation>& obs_bundle) const;
+
     void dropOldMeasurements();
 
     bool hasCache(int gnss_id, int sat_num) const;
+    bool hasSatellite(int gnss_id, int sat_num) const;
 
     const satellite::SatelliteCache& getCache(const UTCTime& t, int gnss_id, int sat_id) const;
 
-- 
2.43.0


From c4920d0f3efcbecf1d7bd1ca9e85156071ae9499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 068/102] fix: keep the time of a state when it is copied or
 moved

---
 core/ekf/ekf_gen/ekf_gen_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 4b95a34..27d7e2a 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -217,7 +217,7 @@ def covariance_dense_decl(cfg):
 def copy_state(cfg):
     states = cfg['state_composition']
 
-    out = []
+    out = ["t = other.t;"]
     for s in [s for s in states if not s.variable]:
         out.append(f"{s.name} = other.{s.name};")
     out.append("")
@@ -388,7 +388,7 @@ def boxplus_impl(cfg):
         else:
             return f"xp.{s.name}{idx} = {s.name}{idx} + dx.{s.name}{soft_idx};"
 
-    out = []
+    out = ["xp.t = t;"]
     for s in fixed_states:
         out.append(state_plus_impl(s))
     for s in variable_states:
-- 
2.43.0


From 91f3e08aa4a608b08508ba06a52849c75048a68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 069/102] fix: copy the tiled matrix into each tile

---
 common/matrix_defs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/matrix_defs.h b/common/matrix_defs.h
index a5611a5..68c6ad4 100644
--- a/common/matrix_defs.h
+++ b/common/matrix_defs.h
@@ -133,7 +133,7 @@ inline Eigen::MatrixXd tile(const Eigen::MatrixXd& a, size_t vcopies, size_t hco
     {
         for (size_t j = 0; j < hcopies; ++j)
         {
-            out.block(i * a.rows(), j * a.cols(), a.rows(), a.cols());
+            out.block(i * a.rows(), j * a.cols(), a.rows(), a.cols()) = a;
         }
     }
     return out;
-- 
2.43.0


From d281a2ef9e6599b52830e2da8df24917ca20815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 070/102] fix: keep unused filter memory out of the results

---
 core/ekf/ekf_gen/ekf_gen.py              |  6 ++++--
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py |  7 ++++++-
 core/ekf/ekf_gen/ekf_gen_state.py        | 14 ++++++++------
 core/ekf/ekf_gen/ekf_gen_templates.py    |  8 +++++---
 core/ekf/rtk_ekf_impl.cxx                |  4 ++--
 5 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index f2a8de9..b1c6f9b 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -46,7 +46,8 @@ def make_jacobian(name, matrix, row_states, col_states):
         for row in matrix:
             for sr, sc in row:
                 if sr.variable or sc.variable:
-                    out.append(f"Mat<{sr.dx}, {sc.dx}> {buffer_name(sr, sc)};")
+                    block_type = f"Mat<{sr.dx}, {sc.dx}>"
+                    out.append(f"{block_type} {buffer_name(sr, sc)} = {block_type}::Zero();")
         return "\n    ".join(out)
 
     def dim(s):
@@ -76,7 +77,8 @@ def make_jacobian(name, matrix, row_states, col_states):
         for row in matrix:
             for sr, sc in row:
                 if not sr.variable and not sc.variable:
-                    out.append(f"Mat<{sr.dx}, {sc.dx}> {jac_member_name(sr, sc)};")
+                    block_type = f"Mat<{sr.dx}, {sc.dx}>"
+                    out.append(f"{block_type} {jac_member_name(sr, sc)} = {block_type}::Zero();")
                 if sr.variable and sr.name == None:
                     # Per-observation block accessor
                     args = {f"int idx"}
diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 791d07d..dd9aa95 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -401,12 +401,16 @@ def sparse_meas_update(cfg, key):
     else:
         inverse = f"llt().solve(MatX::Identity(size_{meas_state.name}, size_{meas_state.name}))"
         inverse = "inverse()"
-        HPHT_impl.append(f"{make_type(Sinv[0,0])} Sinv;")
+        sinv_type = make_type(Sinv[0,0])
+        HPHT_impl.append(f"{sinv_type} Sinv = {sinv_type}::Zero();")
         block_args = f"0,0,size_{meas_state.name},size_{meas_state.name}"
         HPHT_impl.append(f"Sinv.block({block_args}) = HPHT.block({block_args}).{inverse};")
     tmp = "\n    ".join(HPHT_impl)
     SPARSE_INNOVATION = tmp.format(**symbol_varname)
 
+    # Squared Mahalanobis distance of the residual
+    SPARSE_MAHAL = "{res}.transpose() * {Sinv} * {res}".format(**symbol_varname)
+
     # Compute Kalman Gain
     K_impl, K = commit_mat(PHT * Sinv, "K", already_checked_size=[H[0, 0].rows])
     tmp = "\n        ".join(K_impl)
@@ -425,6 +429,7 @@ def sparse_meas_update(cfg, key):
     return {
         "SPARSE_PHT": SPARSE_PHT,
         "SPARSE_INNOVATION": SPARSE_INNOVATION,
+        "SPARSE_MAHAL": SPARSE_MAHAL,
         "SPARSE_KALMAN_GAIN": SPARSE_KALMAN_GAIN,
         "SPARSE_COMPUTE_ERROR_STATE": SPARSE_COMPUTE_ERROR_STATE,
         "SPARSE_COVARIANCE_UPDATE": SPARSE_COVARIANCE_UPDATE,
diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 27d7e2a..30cc726 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -24,7 +24,7 @@ def error_state_buffers(cfg):
 
     out = []
     for s in variable_states:
-        out.append(f"Vec<{s.dx}> {s.name}_buf_;")
+        out.append(f"Vec<{s.dx}> {s.name}_buf_ = Vec<{s.dx}>::Zero();")
 
     return "\n    ".join(out)
 
@@ -122,7 +122,8 @@ def covariance_buffers(cfg):
             if r > c:
                 continue
             if s1.variable or s2.variable:
-                out.append(f"Mat<{s1.dx}, {s2.dx}> {buffer_name(s1, s2)};")
+                block_type = f"Mat<{s1.dx}, {s2.dx}>"
+                out.append(f"{block_type} {buffer_name(s1, s2)} = {block_type}::Zero();")
     return "\n    ".join(out)
 
 
@@ -147,7 +148,8 @@ def covariance_members(cfg):
             if r > c:
                 continue
             if not s1.variable and not s2.variable:
-                out.append(f"Mat<{s1.dx}, {s2.dx}> {member_name(s1, s2)};")
+                block_type = f"Mat<{s1.dx}, {s2.dx}>"
+                out.append(f"{block_type} {member_name(s1, s2)} = {block_type}::Zero();")
             if s1.variable or s2.variable:
                 args = {f"int {s.counter_var}" for s in [s1, s2] if s.variable}
                 block = f"{buffer_name(s1, s2)}.block(0, 0, {dim(s1)}, {dim(s2)})"
@@ -578,8 +580,8 @@ def finite_state(cfg):
     for i, s in enumerate(fixed_states):
         out.append(f"is_finite &= mc::isFinite(x.{s.name});")
     for s in variable_states:
-        out.append(f"for (const auto& sub_field : x.{s.name}){{")
-        out.append("    is_finite &= mc::isFinite(sub_field);")
+        out.append(f"for (size_t i = 0; i < x.{s.counter_var}; ++i) {{")
+        out.append(f"    is_finite &= mc::isFinite(x.{s.name}[i]);")
         out.append("}")
     out.append("return is_finite;")
     return "\n    ".join(out)
@@ -780,7 +782,7 @@ def covariance_from_process_cov(cfg):
     for s in states:
         if s.variable:
             out.append(
-                f"{make_camel(s.name)}_{make_camel(s.name)}_buf_ = tile(cov.{make_camel(s.name)}.asDiagonal(), {s.bundle_size}, {s.bundle_size});"
+                f"{make_camel(s.name)}_{make_camel(s.name)}_buf_ = cov.{make_camel(s.name)}.replicate<{s.bundle_size}, 1>().asDiagonal();"
             )
         else:
             out.append(
diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index 8bfd700..6d59550 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -247,8 +247,10 @@ void {ErrorState}::setZero()
     return out;
 }}
 
-{State}::{State}() {{}}
-
+{State}::{State}()
+{{
+    setIdentity();
+}}
 
 {State}::{State}(const {State} &other)
 {{
@@ -689,7 +691,7 @@ Error doUpdate<{Meas}>(Out<Snapshot> snap,
     {SPARSE_INNOVATION}
     check(mc::isFinite(Sinv), "numerical issues in innovation");
 
-    const double mahal = res.transpose() * Sinv * res;
+    const double mahal = {SPARSE_MAHAL};
     // Gating values with prob less than MAX_PROB (using χ² distribution with DOF = SIZE-1)
     if (mahal > {Meas}::MAX_MAHAL)
     {{
diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 5e27f4a..a4a1295 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -118,7 +118,7 @@ obsMeas::Residual h<obsMeas>(const obsMeas::ZType& z,
     const math::Quat<double> q_b2e = (x.pose.rotation().inverse() * x.T_I2e.rotation());
     const Vec3 v_I2g_e = q_b2e.rotp(v_I2g_b);
 
-    obsMeas::Residual residual;
+    obsMeas::Residual residual = obsMeas::Residual::Zero();
 
     for (size_t i = 0; i < z.size(); ++i)
     {
@@ -207,7 +207,7 @@ fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z,
           "estimate.  num_sd = {}, num_fix_and_hold = {}",
           fmt(num_sd, num_fix_and_hold));
 
-    fixAndHoldMeas::Residual res;
+    fixAndHoldMeas::Residual res = fixAndHoldMeas::Residual::Zero();
     for (int i = 0; i < num_sd; ++i)
     {
         res[i] = (z[i] - x.sd[i])[0];
-- 
2.43.0


From b38e5634ea8afbebaa5c9f8ef230dd4bb095bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 071/102] fix: gate a measurement by the chi-squared quantile
 of its own size

---
 core/ekf/ekf_gen/ekf_gen.py           | 43 ++++++++++++++++++++-------
 core/ekf/ekf_gen/ekf_gen_templates.py |  4 +--
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index b1c6f9b..867d54b 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -6,8 +6,6 @@ import yaml
 from argparse import ArgumentParser
 from collections import OrderedDict
 from scipy.stats import chi2
-import numpy as np
-from numpy.lib.arraysetops import isin
 
 from core.ekf.ekf_gen.ekf_gen_test import gen_test
 from core.ekf.ekf_gen.ekf_gen_utils import (
@@ -350,6 +348,7 @@ def meas_types(cfg):
     {CONSTANTS}
 
     static constexpr double MAX_MAHAL = {MAX_MAHAL};
+    {VARIABLE_MAX_MAHAL}
     static constexpr double MAX_PROB = {MAX_PROB};
     static constexpr bool DISABLED = {DISABLED};
 
@@ -416,6 +415,7 @@ def meas_types(cfg):
             COVARIANCE_TYPE=cov_type(),
             Z_TYPE=z_type(),
             MAX_MAHAL=compute_max_mahal(cfg, key),
+            VARIABLE_MAX_MAHAL=variable_max_mahal(cfg, key),
             MAX_PROB=meas_cfg['gating_probability'],
             MAX_SIZE=meas_state.dx,
             DISABLED=disabled(),
@@ -462,20 +462,40 @@ def list_meas_types(cfg):
     return ", ".join(out)
 
 
-def compute_max_mahal(cfg, key):
-    meas_cfg = cfg["measurements"][key]
-    max_prob = meas_cfg["gating_probability"]
-    meas_state = State(key, meas_cfg["type"])
+def gate_threshold(max_prob, dof):
+    """ The χ² quantile which a valid measurement with `dof` residuals exceeds with
+        probability `1 - max_prob` """
     if max_prob < 1.0:
-        meas_size = meas_state.dx
-        x = np.arange(0, 1000, 0.01)
-        chi2_cdf = chi2.cdf(x, meas_size - 1)
-        idx = (np.abs(chi2_cdf - max_prob)).argmin()
-        return f"{x[idx]}"
+        return f"{float(chi2.ppf(max_prob, dof))}"
     else:
         return "std::numeric_limits<double>::max()"
 
 
+def compute_max_mahal(cfg, key):
+    meas_cfg = cfg["measurements"][key]
+    return gate_threshold(meas_cfg["gating_probability"], State(key, meas_cfg["type"]).dx)
+
+
+def variable_max_mahal(cfg, key):
+    """ A variable-size measurement is gated by the number of its elements """
+    meas_cfg = cfg["measurements"][key]
+    s = State(key, meas_cfg["type"])
+    if not s.variable:
+        return ""
+    gates = ["0.0"] + [
+        gate_threshold(meas_cfg["gating_probability"], n * s.base_dx)
+        for n in range(1, s.bundle_size + 1)
+    ]
+    return f"static constexpr double MAX_MAHAL_BY_COUNT[] = {{{', '.join(gates)}}};"
+
+
+def max_mahal_expr(cfg, key):
+    s = State(key, cfg["measurements"][key]["type"])
+    if s.variable:
+        return f"{make_camel(key)}Meas::MAX_MAHAL_BY_COUNT[{s.counter_var}]"
+    return f"{make_camel(key)}Meas::MAX_MAHAL"
+
+
 def get_variable_states(cfg):
     states = cfg['state_composition']
     out = [""]
@@ -597,6 +617,7 @@ def ekf_impl(cfg):
                 DO_UPDATE_TEMPLATE.format(
                     **sparse_meas_update(cfg, key),
                     Meas=f"{make_camel(key)}Meas",
+                    MAX_MAHAL=max_mahal_expr(cfg, key),
                     ErrorState=cfg["error_state_name"],
                     GET_VARIABLE_STATES=get_variable_states(cfg),
                     GET_VARIABLE_MEAS=get_variable_meas(cfg, key),
diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index 6d59550..e4af240 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -692,8 +692,8 @@ Error doUpdate<{Meas}>(Out<Snapshot> snap,
     check(mc::isFinite(Sinv), "numerical issues in innovation");
 
     const double mahal = {SPARSE_MAHAL};
-    // Gating values with prob less than MAX_PROB (using χ² distribution with DOF = SIZE-1)
-    if (mahal > {Meas}::MAX_MAHAL)
+    // Gating values with prob less than MAX_PROB (using χ² distribution with DOF = SIZE)
+    if (mahal > {MAX_MAHAL})
     {{
         return Error::create("Measurement Gated");
     }}
-- 
2.43.0


From b7f7837545f7c4f82dc238727298f2ba4e19c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 072/102] fix: generate the same filter interface whatever the
 hash seed

---
 core/ekf/ekf_gen/ekf_gen.py              | 13 +++++++------
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 22 +++++++++++++---------
 core/ekf/ekf_gen/ekf_gen_state.py        | 24 ++++++++++++------------
 core/ekf/ekf_gen/ekf_gen_utils.py        |  5 +++++
 core/ekf/rtk_ekf_impl.cxx                |  4 ++--
 5 files changed, 39 insertions(+), 29 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index 867d54b..f75dd84 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -10,7 +10,7 @@ from scipy.stats import chi2
 from core.ekf.ekf_gen.ekf_gen_test import gen_test
 from core.ekf.ekf_gen.ekf_gen_utils import (
     accumulate_expr, make_camel, make_snake, State, includes, begin_namespaces, end_namespaces,
-    get_matching_elements, jac_member_name
+    get_matching_elements, jac_member_name, unique
 )
 from core.ekf.ekf_gen.ekf_gen_templates import DO_UPDATE_TEMPLATE, EKF_HEADER_TEMPLATE, EKF_IMPL_TEMPLATE, TYPE_HEADER_TEMPLATE, TYPE_IMPL_TEMPLATE
 from core.ekf.ekf_gen.ekf_gen_matrix_manip import block_sparse_propagate_covariance, sparse_meas_update
@@ -79,9 +79,9 @@ def make_jacobian(name, matrix, row_states, col_states):
                     out.append(f"{block_type} {jac_member_name(sr, sc)} = {block_type}::Zero();")
                 if sr.variable and sr.name == None:
                     # Per-observation block accessor
-                    args = {f"int idx"}
+                    args = ["int idx"]
                     if sc.variable:
-                        args.add(f"int {sc.counter_var}")
+                        args.append(f"int {sc.counter_var}")
                     start_idx = f"idx * {sr.base_dx}"
                     block = f"{buffer_name(sr,sc)}.block({start_idx}, 0, {sr.base_dx}, {dim(sc)})"
                     decl = f"inline auto {jac_member_name(sr, sc)}({', '.join(args)})"
@@ -90,7 +90,7 @@ def make_jacobian(name, matrix, row_states, col_states):
                     out.append(f"{decl} const {impl}")
 
                 if sr.variable or sc.variable:
-                    args = {f"int {s.counter_var}" for s in [sr, sc] if s.variable}
+                    args = unique(f"int {s.counter_var}" for s in [sr, sc] if s.variable)
                     block = f"{buffer_name(sr, sc)}.block(0, 0, {dim(sr)}, {dim(sc)})"
                     fname = f"inline auto {jac_member_name(sr, sc)}"
                     if sr.variable and sr.name == None:
@@ -196,7 +196,7 @@ def make_jacobian_dense_impl(matrix, name, row_states, col_states):
         col_expr = 0
         for c, cs in enumerate(col_states):
             if rs.variable or cs.variable:
-                args = {f"{s.counter_var}" for s in (rs, cs) if s.variable}
+                args = unique(f"{s.counter_var}" for s in (rs, cs) if s.variable)
                 assigner = f"out.block({row_expr}, {col_expr}, {dim(rs)}, {dim(cs)})"
                 fname = f"{jac_member_name(rs, cs)}"
                 if rs.variable and rs.name == None:
@@ -330,6 +330,7 @@ def meas_jacobian_helpers(cfg, meas_key):
     meas_cfg = cfg["measurements"][meas_key]
     states = cfg['state_composition']
     sr = State(None, meas_cfg["type"])
+    sr.counter_var = f"num_{meas_key}"
     out = make_jacobian_random_impl(jac, identifier)
     out += "\n\n" + make_jacobian_zero_impl(jac, identifier)
     out += "\n\n" + make_jacobian_dense_impl(jac, identifier, [sr], states)
@@ -630,7 +631,7 @@ def ekf_impl(cfg):
         DESTINATION_DIR=cfg["destination"],
         ErrorState=cfg["error_state_name"],
         Input=cfg["input_name"],
-        EKF_FILENAME=make_snake(cfg["kalman_filter_class"]),
+        EKF_FILENAME=cfg["ekf_filename_base"],
         BEGIN_NAMESPACES=begin_namespaces(cfg),
         DO_UPDATES=do_updates(),
         GET_VARIABLE_STATES=get_variable_states(cfg),
diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index dd9aa95..0e4f2dd 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -3,7 +3,7 @@ import re
 from core.ekf.ekf_gen.symb_algebra import reduce
 from core.ekf.ekf_gen.symb_matrix import ConstBlock
 from core.ekf.ekf_gen.symb_block_matrix import SymBlockMatrix
-from core.ekf.ekf_gen.ekf_gen_utils import State, make_camel, jac_member_name, accumulate_expr
+from core.ekf.ekf_gen.ekf_gen_utils import State, make_camel, jac_member_name, accumulate_expr, unique
 
 symbol_varname = {"transpose": "transpose"}
 
@@ -49,7 +49,7 @@ def create_symbolic_dynamics_jacobian(cfg):
                 name = jac_member_name(rstate, cstate)
                 row.append(ConstBlock(name, dim(rstate), dim(cstate), rstate.dx, cstate.dx))
                 if rstate.variable or cstate.variable:
-                    args = {s.counter_var for s in [rstate, cstate] if s.variable}
+                    args = unique(s.counter_var for s in [rstate, cstate] if s.variable)
                     symbol_varname[name] = f"dxdx.{name}({', '.join(args)})"
                 else:
                     symbol_varname[name] = f"dxdx.{name}"
@@ -66,7 +66,7 @@ def create_symbolic_dynamics_jacobian(cfg):
                 name = jac_member_name(rstate, cstate)
                 row.append(ConstBlock(name, dim(rstate), dim(cstate), rstate.dx, cstate.dx))
                 if rstate.variable or cstate.variable:
-                    args = {s.counter_var for s in [rstate, cstate] if s.variable}
+                    args = unique(s.counter_var for s in [rstate, cstate] if s.variable)
                     symbol_varname[name] = f"dxdu.{name}({', '.join(args)})"
                 else:
                     symbol_varname[name] = f"dxdu.{name}"
@@ -85,7 +85,7 @@ def create_symbolic_covariance(cfg, var_name):
         if not rs.variable and not cs.variable:
             return f"{make_camel(rs.name)}_{make_camel(cs.name)}"
         else:
-            args = ', '.join({f"{s.counter_var}" for s in [rs, cs] if s.variable})
+            args = ', '.join(unique(f"{s.counter_var}" for s in [rs, cs] if s.variable))
             return f"{make_camel(rs.name)}_{make_camel(cs.name)}({args})"
 
     for r, rstate in enumerate(states):
@@ -192,7 +192,9 @@ def commit_mat_inplace_modify(matrix, var, modify_type='-', symmetric=False):
             expr = matrix[r, c]
             if not expr.is_zero:
                 if expr.is_variable():
-                    sizes = {f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str)}
+                    sizes = unique(
+                        f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str)
+                    )
                     out.append(f"if ({' && '.join(sizes)}) {{{{")
                     out.append(f"    {impl_expr(var[r,c])} {modify_type}= {impl_expr(expr)};")
                     out.append("}}")
@@ -214,7 +216,9 @@ def commit_mat(matrix, var, symmetric=False, dense=False, const=True, already_ch
                     continue
                 expr = matrix[r, c]
                 if expr.is_variable():
-                    sizes = {f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str)}
+                    sizes = unique(
+                        f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str)
+                    )
                     out.append(f"if ({' && '.join(sizes)}) {{{{")
                     out.append(f"    {impl_expr(var[r,c])} = {impl_expr(expr)};")
                     out.append("}}")
@@ -253,11 +257,11 @@ def commit_mat(matrix, var, symmetric=False, dense=False, const=True, already_ch
                     expr_text = make_type(expr)
                     symbol_varname[f"{name}_init"] = name
                     out.append(f"{expr_text} {{{name}_init}};")
-                    sizes = {
+                    sizes = unique(
                         f"({s} > 0)"
                         for s in (expr.rows, expr.cols)
                         if isinstance(s, str) and s not in already_checked_size
-                    }
+                    )
                     if len(sizes) > 0:
                         out.append(f"if ({' && '.join(sizes)}) {{{{")
                     sub_name = f"{name}.block(0, 0, {expr.rows}, {expr.cols})"
@@ -343,7 +347,7 @@ def create_symbolic_measurement_jacobian(cfg, key):
             name = f"{jac_member_name(sr, sc)}"
             dzdx.append(ConstBlock(name, dim(meas_state), dim(sc), sr.dx, sc.dx))
             if meas_state.variable or sc.variable:
-                args = {s.counter_var for s in (meas_state, sc) if s.variable}
+                args = unique(s.counter_var for s in (meas_state, sc) if s.variable)
                 symbol_varname[
                     name] = f"dzdx.{name}{'_all' if meas_state.variable else ''}({','.join(args)})"
             else:
diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 30cc726..11a93b4 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -2,19 +2,19 @@ from itertools import accumulate
 
 from core.ekf.ekf_gen.ekf_gen_templates import STATE_HEADER_TEMPLATE, STATE_IMPL_TEMPLATE
 from core.ekf.ekf_gen.ekf_gen_utils import (
-    accumulate_expr, make_camel, begin_namespaces, end_namespaces
+    accumulate_expr, make_camel, begin_namespaces, end_namespaces, unique
 )
 
 
 def state_using_statements(cfg):
     states = cfg['state_composition']
-    needed_types = {s.type for s in states if s.manifold}
+    needed_types = unique(s.type for s in states if s.manifold)
     return "\n    ".join(f"using {t} = math::{t}<double>;" for t in needed_types)
 
 
 def input_using_statements(cfg):
     states = cfg['input']
-    needed_types = {s.type for s in states if s.manifold}
+    needed_types = unique(s.type for s in states if s.manifold)
     return "\n    ".join(f"using {t} = math::{t}<double>;" for t in needed_types)
 
 
@@ -48,7 +48,7 @@ def error_state_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         out_type = f"Vec<{sum([s.dx for s in states])}>"
@@ -151,7 +151,7 @@ def covariance_members(cfg):
                 block_type = f"Mat<{s1.dx}, {s2.dx}>"
                 out.append(f"{block_type} {member_name(s1, s2)} = {block_type}::Zero();")
             if s1.variable or s2.variable:
-                args = {f"int {s.counter_var}" for s in [s1, s2] if s.variable}
+                args = unique(f"int {s.counter_var}" for s in [s1, s2] if s.variable)
                 block = f"{buffer_name(s1, s2)}.block(0, 0, {dim(s1)}, {dim(s2)})"
                 out.append(
                     f"inline auto {member_name(s1, s2)}({', '.join(args)}){{ return {block}; }}"
@@ -208,7 +208,7 @@ def covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -512,7 +512,7 @@ def input_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         out_type = f"Vec<{sum([s.dx for s in states])}>"
@@ -537,7 +537,7 @@ def process_covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -563,7 +563,7 @@ def input_covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -672,7 +672,7 @@ def make_dense_vector(states, name):
     out = []
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -709,7 +709,7 @@ def make_dense_matrix(row_states, col_states, name, symmetric=False, diagonal=Fa
     variable_col_states = [s for s in col_states if s.variable]
     if len(variable_rows_states) > 0 or len(variable_col_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_rows_states + variable_col_states}
+        args = unique(f"int {s.counter_var}" for s in variable_rows_states + variable_col_states)
     else:
         args = {}
         r_dx = sum([s.dx for s in fixed_rows_states])
@@ -731,7 +731,7 @@ def make_dense_matrix(row_states, col_states, name, symmetric=False, diagonal=Fa
                 getter = f"{make_camel(rs.name)}_{make_camel(cs.name)}"
         else:
             assign = f"out.block({row_accum}, {col_accum}, {dim(rs)}, {dim(cs)})"
-            args = {s.counter_var for s in (rs, cs) if s.variable}
+            args = unique(s.counter_var for s in (rs, cs) if s.variable)
             if diagonal:
                 getter = f"{make_camel(rs.name)}.replicate({rs.counter_var}, 1).asDiagonal()"
             else:
diff --git a/core/ekf/ekf_gen/ekf_gen_utils.py b/core/ekf/ekf_gen/ekf_gen_utils.py
index 3966652..64ee381 100644
--- a/core/ekf/ekf_gen/ekf_gen_utils.py
+++ b/core/ekf/ekf_gen/ekf_gen_utils.py
@@ -8,6 +8,11 @@ def accumulate_expr(expr, dim):
         return expr + dim
 
 
+def unique(items):
+    """ The distinct items, in the order of their first appearance """
+    return list(dict.fromkeys(items))
+
+
 def get_matching_elements(items, condition):
     for item in items:
         if condition(item):
diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index a4a1295..9141f93 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -215,8 +215,8 @@ fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z,
 
     if (jac)
     {
-        jac->dSd_all(num_sd, num_fix_and_hold).setZero();
-        jac->dSd_all(num_sd, num_fix_and_hold).diagonal().setConstant(-1.0);
+        jac->dSd_all(num_fix_and_hold, num_sd).setZero();
+        jac->dSd_all(num_fix_and_hold, num_sd).diagonal().setConstant(-1.0);
     }
 
     return res;
-- 
2.43.0


From d1334d23f4064c14327423a3222b557d45a6dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 073/102] fix: refuse invalid filter descriptions

---
 core/ekf/ekf_gen/ekf_gen.py       | 40 ++++++++++++++++++++++++++++++-
 core/ekf/ekf_gen/ekf_gen_utils.py | 17 +++++++++----
 2 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index f75dd84..0c94a69 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -652,6 +652,43 @@ def organize_states(state_dictionary):
     return [s for s in states if not s.variable] + [s for s in states if s.variable]
 
 
+class UniqueKeyLoader(yaml.FullLoader):
+    """ Refuses a description which defines the same thing twice """
+    def construct_mapping(self, node, deep=False):
+        keys = [self.construct_object(key, deep=deep) for key, _ in node.value]
+        for key in keys:
+            if keys.count(key) > 1:
+                raise RuntimeError(f"{key} is defined more than once")
+        return super().construct_mapping(node, deep)
+
+
+def validate(cfg):
+    """ Refuse a description which cannot be turned into the filter it asks for """
+    states = [s.name for s in cfg["state_composition"]]
+    inputs = [s.name for s in cfg["input"]]
+
+    def check_known(names, known, where):
+        for name in names:
+            if name not in known:
+                raise RuntimeError(f"unknown name {name} in {where}")
+        if len(set(names)) != len(names):
+            raise RuntimeError(f"repeated name in {where}")
+
+    if any(s.variable for s in cfg["input"]):
+        raise RuntimeError("inputs of variable size are not supported")
+
+    check_known(cfg["dynamics"].keys(), states, "dynamics")
+    check_known(states, cfg["dynamics"].keys(), "state_composition")
+    for name, (state_deps, input_deps) in cfg["dynamics"].items():
+        check_known(state_deps, states, f"dynamics of {name}")
+        check_known(input_deps, inputs, f"dynamics of {name}")
+
+    for name, meas in cfg["measurements"].items():
+        check_known(meas["states"], states, f"measurement {name}")
+        if not 0.0 < meas["gating_probability"] <= 1.0:
+            raise RuntimeError(f"gating_probability of {name} is not in (0, 1]")
+
+
 if __name__ == "__main__":
     parser = ArgumentParser("Generate an EKF")
     parser.add_argument(
@@ -660,7 +697,7 @@ if __name__ == "__main__":
     parser.add_argument("--destination", help="destination directoy of c++ code", required=True)
     args = parser.parse_args()
 
-    cfg = yaml.load(open(args.config_file).read(), Loader=yaml.FullLoader)
+    cfg = yaml.load(open(args.config_file).read(), Loader=UniqueKeyLoader)
     cfg["destination"] = args.destination
 
     cfg["kalman_filter_class"] = make_camel(
@@ -669,6 +706,7 @@ if __name__ == "__main__":
 
     cfg["state_composition"] = organize_states(cfg["state_composition"])
     cfg["input"] = organize_states(cfg["input"])
+    validate(cfg)
 
     if not os.path.exists(cfg["destination"]):
         os.mkdir(cfg["destination"])
diff --git a/core/ekf/ekf_gen/ekf_gen_utils.py b/core/ekf/ekf_gen/ekf_gen_utils.py
index 64ee381..16a49c5 100644
--- a/core/ekf/ekf_gen/ekf_gen_utils.py
+++ b/core/ekf/ekf_gen/ekf_gen_utils.py
@@ -28,7 +28,7 @@ def includes(cfg):
     if 'includes' not in cfg.keys():
         return ""
     else:
-        return "\n".join([f'#include "{inc}' for inc in cfg['includes']])
+        return "\n".join([f'#include "{inc}"' for inc in cfg['includes']])
 
 
 def end_namespaces(cfg):
@@ -56,6 +56,13 @@ def make_snake(camel):
     return re.sub(r'(?<!^)(?=[A-Z])', '_', camel).lower()
 
 
+def vector_size(state):
+    m = re.fullmatch(r"Vec([1-9]\d*)", state)
+    if m is None:
+        raise RuntimeError(f"Unknown state type {state}")
+    return int(m.group(1))
+
+
 def state_size(state):
     if state == "DQuat":
         return 8
@@ -66,7 +73,7 @@ def state_size(state):
     elif state == "SE3":
         return 12
     elif state.startswith("Vec"):
-        return int(re.match(r"Vec(\d+)", state).group(1))
+        return vector_size(state)
     else:
         raise RuntimeError(f"Unknown state type {state}")
 
@@ -81,7 +88,7 @@ def error_state_size(state):
     elif state == "SE3":
         return 6
     elif state.startswith("Vec"):
-        return int(re.match(r"Vec(\d+)", state).group(1))
+        return vector_size(state)
     else:
         raise RuntimeError(f"Unknown state type {state}")
 
@@ -121,14 +128,14 @@ def is_var(state):
 
 
 def bundle_var(state):
-    m = re.search(r"Var<([\w\d]*)", state)
+    m = re.fullmatch(r"Var<(\w+),\s*[1-9]\d*>", state)
     if m is None:
         raise RuntimeError(f"Unable to state bundle type from {state}")
     return m.group(1)
 
 
 def bundle_size(state):
-    m = re.search(r"Var<[\w\d]+,\s(\d+)>", state)
+    m = re.fullmatch(r"Var<\w+,\s*([1-9]\d*)>", state)
     if m is None:
         raise RuntimeError(f"Unable to state bundle type from {state}")
     return int(m.group(1))
-- 
2.43.0


From 280c4a304c71b36dad17c9c6f7d1c4dec7937928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 074/102] fix: keep the value of symbolic expressions when they
 are combined and factored

---
 core/ekf/ekf_gen/symb_algebra.py | 260 ++++++++++++++-----------------
 core/ekf/ekf_gen/symb_matrix.py  | 195 ++++++++++-------------
 2 files changed, 194 insertions(+), 261 deletions(-)

diff --git a/core/ekf/ekf_gen/symb_algebra.py b/core/ekf/ekf_gen/symb_algebra.py
index 12a228f..920a94b 100644
--- a/core/ekf/ekf_gen/symb_algebra.py
+++ b/core/ekf/ekf_gen/symb_algebra.py
@@ -1,165 +1,135 @@
 from core.ekf.ekf_gen.symb_matrix import ConstBlock, Mult, Add
 
+# None of these functions modifies its argument: the terms of an expression may be shared with
+# other expressions.
 
-def factor(expr):
-    for i, t_i in enumerate(expr.terms):
-        count_same_terms = [i]
-        for j, t_j in enumerate(expr.terms):
-            if i == j:
-                continue
-            if t_i == t_j:
-                count_same_terms.append(j)
-        if len(count_same_terms) > 1:
-            expr.terms[i] = ConstBlock(f"{len(count_same_terms)}", 1, 1) * expr.terms[i]
-            for j in reversed(count_same_terms):
-                if j != i:
-                    expr.terms.pop(j)
-    return expr
 
+def make_sum(terms):
+    out = terms[0]
+    for t in terms[1:]:
+        out = Add(out, t)
+    return out
 
-def factor_scalars(expr):
-    def strip_scalar(scalar, expr):
-        for i, t_i in enumerate(expr):
-            if t_i == scalar:
-                if isinstance(t_i, Add):
-                    raise RuntimeError("Cannot factor scalars out of Add blocks")
-                if len(expr) == 1:
-                    return expr, ConstBlock("I", t_i.rows, t_i.cols)
-                elif len(expr) == 2:
-                    return expr[i], expr[1 - i]
-                else:
-                    first = expr.terms.pop(i)
-                    return first, expr
-
-    def same_scalar_term(expr, other_expr):
-        expr_scalar_terms = [t for t in expr if t.is_scalar]
-        for t_i in other_expr:
-            if t_i in expr_scalar_terms:
-                return t_i
-        return None
 
-    while True:
-        i = 0
-        modified = False
-        while i < len(expr):
-            t_i = expr[i]
-            j = i + 1
-            while j < len(expr):
-                t_j = expr[j]
-                if not isinstance(t_i, Mult) or not isinstance(t_j, Mult):
-                    j += 1
-                    continue
-                scalar = same_scalar_term(t_i, t_j)
-                if scalar is not None:
-                    first_i, rest_i = strip_scalar(scalar, t_i)
-                    _, rest_j = strip_scalar(scalar, t_j)
-                    expr.terms[i] = Mult(first_i, factor_scalars(Add(rest_i, rest_j)))
-                    t_i = expr.terms[i]
-                    expr.terms.pop(j)
-                    if len(expr) == 1:
-                        expr = expr.terms[0]
-                    modified = True
-                else:
-                    j += 1
-            i += 1
-        if not modified:
-            break
-    return expr
+def factors_of(expr):
+    """ The factors of a product without its sign """
+    if isinstance(expr, Mult):
+        return list(expr.terms)
+    return [-expr if expr.is_negative else expr]
 
 
-def factor_first_term(expr):
-    def strip_first_term(expr):
-        if len(expr) == 1:
-            return expr, ConstBlock("I", expr.cols, expr.cols, expr.max_cols, expr.max_cols)
-        elif isinstance(expr, Mult):
-            if len(expr) == 2:
-                return expr[0], expr[1]
-            else:
-                first = expr.pop_front()
-                return first, expr
+def make_product(factors, is_negative, identity):
+    """ The signed product of factors, where `identity` is used if no matrix is among them """
+    if identity is not None and all(f.is_scalar for f in factors):
+        factors = factors + [identity]
+    out = factors[0]
+    for f in factors[1:]:
+        out = Mult(out, f)
+    return -out if is_negative else out
+
+
+def identity(size, max_size):
+    return ConstBlock("I", size, size, max_size, max_size)
+
+
+def factor(expr):
+    """ Combine equal terms """
+    terms = []
+    counts = []
+    for t in expr:
+        if t in terms:
+            counts[terms.index(t)] += 1
         else:
-            raise RuntimeError("Cannot factor anything besides ConstBlocks and Mults")
+            terms.append(t)
+            counts.append(1)
+    return make_sum([
+        Mult(ConstBlock(f"{n}", 1, 1), t) if n > 1 else t for t, n in zip(terms, counts)
+    ])
 
-    def same_first_term(expr, other_expr):
-        # find first non-scalar term
-        expr_non_scalar_terms = [t for t in expr if not t.is_scalar]
-        other_non_scalar_terms = [t for t in other_expr if not t.is_scalar]
-        first_term = expr_non_scalar_terms[0]
-        return first_term == other_non_scalar_terms[0]
 
+def factor_common(expr, find_common, strip, join):
+    terms = list(expr)
     i = 0
-    while i < len(expr):
-        t_i = expr[i]
+    while i < len(terms):
         j = i + 1
-        while j < len(expr):
-            t_j = expr[j]
-            if isinstance(t_i, Add) or isinstance(t_j, Add):
+        while j < len(terms):
+            common = find_common(terms[i], terms[j])
+            if common is None:
                 j += 1
-                continue
-            if same_first_term(t_i, t_j):
-                first_i, rest_i = strip_first_term(t_i)
-                _, rest_j = strip_first_term(t_j)
-                expr.terms[i] = Mult(first_i, factor_first_term(Add(rest_i, rest_j)))
-                t_i = expr[i]
-                expr.terms.pop(j)
-                if len(expr) == 1:
-                    expr = expr[0]
             else:
-                j += 1
+                rest = strip(terms[i], common) + strip(terms[j], common)
+                terms[i] = join(common, rest)
+                terms.pop(j)
         i += 1
-        pass
+    return make_sum(terms)
 
-    return expr
+
+def factor_scalars(expr):
+    """ Take common scalars out of the sum """
+    if not isinstance(expr, Add) or expr.is_scalar:
+        return expr
+
+    def find_common(a, b):
+        if isinstance(a, Mult) and isinstance(b, Mult):
+            for t in b:
+                if t.is_scalar and t in factors_of(a):
+                    return t
+        return None
+
+    def strip(term, scalar):
+        factors = factors_of(term)
+        factors.remove(scalar)
+        return make_product(factors, term.is_negative, None)
+
+    def join(scalar, rest):
+        return Mult(scalar, factor_scalars(rest))
+
+    return factor_common(expr, find_common, strip, join)
+
+
+def factor_first_term(expr):
+    """ Take common first matrices out of the sum """
+    if not isinstance(expr, Add) or expr.is_scalar:
+        return expr
+
+    def first(term):
+        return next(t for t in factors_of(term) if not t.is_scalar)
+
+    def find_common(a, b):
+        return first(a) if first(a) == first(b) else None
+
+    def strip(term, common):
+        factors = factors_of(term)
+        factors.remove(common)
+        return make_product(factors, term.is_negative, identity(common.cols, common.max_cols))
+
+    def join(common, rest):
+        return Mult(common, factor_first_term(rest))
+
+    return factor_common(expr, find_common, strip, join)
 
 
 def factor_last_term(expr):
-    def strip_last_term(expr):
-        if len(expr) == 1:
-            return ConstBlock("I", expr.rows, expr.rows), expr
-        elif isinstance(expr, Mult):
-            if len(expr) == 2:
-                return expr[0], expr[1]
-            else:
-                last = expr.pop_back()
-                return expr, last
-        else:
-            raise RuntimeError("Cannot factor anything besides ConstBlocks and Mults")
+    """ Take common last matrices out of the sum """
+    if not isinstance(expr, Add) or expr.is_scalar:
+        return expr
 
-    def same_last_term(expr, other_expr):
-        # find first non-scalar term
-        expr_non_scalar_terms = [t for t in expr if not t.is_scalar]
-        other_non_scalar_terms = [t for t in other_expr if not t.is_scalar]
-        last_term = expr_non_scalar_terms[-1]
-        return last_term == other_non_scalar_terms[-1]
+    def last(term):
+        return next(t for t in reversed(factors_of(term)) if not t.is_scalar)
 
-    i = 0
-    while i < len(expr):
-        t_i = expr[i]
-        j = i + 1
-        while j < len(expr):
-            t_j = expr[j]
-            if isinstance(t_i, Add) or isinstance(t_j, Add):
-                j += 1
-                continue
-            if same_last_term(t_i, t_j):
-                rest_i, last_i = strip_last_term(t_i)
-                rest_j, _ = strip_last_term(t_j)
-                expr.terms[i] = Mult(Add(rest_i, rest_j), last_i)
-                t_i = expr[i]
-                expr.terms.pop(j)
-                if len(expr) == 1:
-                    expr = expr[0]
-                    return expr
-            else:
-                j += 1
-        i += 1
-        pass
+    def find_common(a, b):
+        return last(a) if last(a) == last(b) else None
 
-    return expr
+    def strip(term, common):
+        factors = factors_of(term)
+        # the common matrix is the last of those equal to it
+        del factors[len(factors) - 1 - factors[::-1].index(common)]
+        return make_product(factors, term.is_negative, identity(common.rows, common.max_rows))
 
+    def join(common, rest):
+        return Mult(rest, common)
 
-def clean_up_negative(expr):
-    pass
+    return factor_common(expr, find_common, strip, join)
 
 
 def combine_factors(expr):
@@ -171,15 +141,13 @@ def combine_factors(expr):
 
 def reduce(expr):
     if isinstance(expr, Add):
-        expr = factor(expr)
-        expr = combine_factors(expr)
-        for i, t in enumerate(expr):
-            if isinstance(t, Add):
-                expr.terms[i] = reduce(t)
+        expr = combine_factors(factor(expr))
 
-            if isinstance(t, Mult):
-                for j, t_j in enumerate(t):
-                    if isinstance(t_j, Add):
-                        expr.terms[i].terms[j] = reduce(t_j)
+    def reduce_product(product):
+        return make_product([reduce(t) for t in product], product.is_negative, None)
 
+    if isinstance(expr, Mult):
+        return reduce_product(expr)
+    if isinstance(expr, Add):
+        return make_sum([reduce_product(t) if isinstance(t, Mult) else t for t in expr])
     return expr
diff --git a/core/ekf/ekf_gen/symb_matrix.py b/core/ekf/ekf_gen/symb_matrix.py
index 3749d6b..c708657 100644
--- a/core/ekf/ekf_gen/symb_matrix.py
+++ b/core/ekf/ekf_gen/symb_matrix.py
@@ -7,7 +7,9 @@ class BaseBlock:
         self.cols = cols
         self.max_rows = max_rows or rows
         self.max_cols = max_cols or cols
-        self.is_scalar = (rows == 1 and cols == 1)
+        # A 1x1 block with explicit maximum sizes is a matrix, which can only be multiplied where
+        # its size fits
+        self.is_scalar = (rows == 1 and cols == 1 and max_rows is None and max_cols is None)
         self.is_zero = False
         self.is_identity = False
         self.is_negative = False
@@ -35,28 +37,46 @@ class BaseBlock:
 
         return Add(self, other)
 
+    def __neg__(self):
+        if self.is_zero:
+            return self
+        out = copy.copy(self)
+        out.is_negative = not self.is_negative
+        return out
+
     def __sub__(self, other):
-        tmp = copy.copy(other)
-        tmp.set_negative()
-        return self.__add__(tmp)
+        return self.__add__(-other)
 
     def __mul__(self, other):
+        if not self.is_scalar and not other.is_scalar and \
+                (self.cols != other.rows or self.max_cols != other.max_rows):
+            raise RuntimeError("Mismatched sizes for * operator")
+
         if self.is_zero or other.is_zero:
+            if self.is_scalar and other.is_scalar:
+                return ConstBlock("0", 1, 1)
             out_rows = self.rows if not self.is_scalar else other.rows
             out_cols = other.cols if not other.is_scalar else self.cols
             out_max_rows = self.max_rows if not self.is_scalar else other.max_rows
             out_max_cols = other.max_cols if not other.is_scalar else self.max_cols
             return ConstBlock("0", out_rows, out_cols, out_max_rows, out_max_cols)
 
-        if self.is_identity and not other.is_scalar:
+        if self.is_identity and (self.is_scalar or not other.is_scalar):
             return other
-        elif other.is_identity and not self.is_scalar:
+        elif other.is_identity and (other.is_scalar or not self.is_scalar):
             return self
 
         return Mult(self, other)
 
-    def set_negative(self):
-        self.is_negative = True
+    def __eq__(self, other):
+        return isinstance(other, BaseBlock) and self.key() == other.key()
+
+    def __hash__(self):
+        return hash(self.key())
+
+    def key(self):
+        """ Expressions with equal keys have equal values """
+        assert False, "called key on base class"
 
     def __len__(self):
         assert False, "called len on base class"
@@ -79,15 +99,12 @@ class BaseBlock:
     def render(self):
         return self.name
 
-    def __hash__(self):
-        return hash(self.__repr__())
-
     @property
     def T(self):
-        if self.is_zero:
-            return ConstBlock("0", self.cols, self.rows, self.max_cols, self.max_rows)
-        elif self.is_identity or self.is_scalar:
+        if self.is_identity or self.is_scalar:
             return self
+        elif self.is_zero:
+            return ConstBlock("0", self.cols, self.rows, self.max_cols, self.max_rows)
         else:
             return Transpose(self)
 
@@ -102,22 +119,22 @@ class ConstBlock(BaseBlock):
         if self.is_identity and rows != cols:
             raise ValueError("Identity Matrices must be square")
 
+    def __neg__(self):
+        out = super().__neg__()
+        out.is_identity = (out._name == "I" and not out.is_negative)
+        return out
+
     def __repr__(self):
         return ("-" if self.is_negative else "") + self._name
 
     def render(self):
-        if self.is_zero or self.is_identity:
+        if self._name in ("0", "I"):
             return ("-" if self.is_negative else "") + f"{self._name}_{self.rows}x{self.cols}"
         else:
             return ("-" if self.is_negative else "") + self._name
 
-    def __hash__(self):
-        return hash(self.__repr__())
-
-    def __eq__(self, other):
-        if self.rows != other.rows or self.cols != other.cols:
-            return False
-        return self.name == other.name
+    def key(self):
+        return (self.name, self.rows, self.cols)
 
     def __getitem__(self, i):
         if i > 0:
@@ -138,26 +155,25 @@ class Transpose(BaseBlock):
         self.block = block
 
     def __repr__(self):
-        if isinstance(self.block, ConstBlock):
-            return f"{self.block.name}.T"
+        sign = "-" if self.is_negative else ""
+        if isinstance(self.block, ConstBlock) and not self.block.is_negative:
+            return f"{sign}{self.block.name}.T"
         else:
-            return f"({self.block.name}).T"
+            return f"{sign}({self.block.name}).T"
 
     def render(self):
-        if isinstance(self.block, ConstBlock):
-            return f"{self.block.render()}.transpose()"
+        sign = "-" if self.is_negative else ""
+        if isinstance(self.block, ConstBlock) and not self.block.is_negative:
+            return f"{sign}{self.block.render()}.transpose()"
         else:
-            return f"({self.block.render()}).transpose()"
-
-    def __eq__(self, other):
-        if self.rows != other.rows or self.cols != other.cols:
-            return False
-        return self.__repr__() == other.__repr__()
+            return f"{sign}({self.block.render()}).transpose()"
 
-    def __hash__(self):
-        return hash(self.__repr__())
+    def key(self):
+        return (self.is_negative, "T", self.block.key())
 
     def __getitem__(self, i):
+        if i > 0:
+            raise IndexError("Transposes have only 1 term")
         return self
 
     def __len__(self):
@@ -166,46 +182,25 @@ class Transpose(BaseBlock):
 
 class Mult(BaseBlock):
     def __init__(self, a, b):
-        if a.shape == (1, 1):
-            rows = b.rows
-            cols = b.cols
-            max_rows = b.max_rows
-            max_cols = b.max_cols
-            self.commutative = True
-        elif b.shape == (1, 1):
-            rows = a.rows
-            cols = a.cols
-            max_rows = a.max_rows
-            max_cols = a.max_cols
-            self.commutative = True
+        if a.is_scalar:
+            rows, cols, max_rows, max_cols = b.rows, b.cols, b.max_rows, b.max_cols
+        elif b.is_scalar:
+            rows, cols, max_rows, max_cols = a.rows, a.cols, a.max_rows, a.max_cols
         elif a.cols != b.rows or a.max_cols != b.max_rows:
             raise RuntimeError("Mismatched sizes for * operator")
         else:
-            rows = a.rows
-            cols = b.cols
-            max_rows = a.max_rows
-            max_cols = b.max_cols
-            self.commutative = False
+            rows, cols, max_rows, max_cols = a.rows, b.cols, a.max_rows, b.max_cols
         super().__init__(rows, cols, max_rows, max_cols)
+        self.is_scalar = a.is_scalar and b.is_scalar
 
+        # The sign of the product is kept apart from its terms
+        self.is_negative = (a.is_negative != b.is_negative)
         self.terms = []
-        if isinstance(a, Mult):
-            self.terms.extend(a.terms)
-        else:
-            self.terms.append(a)
-
-        if isinstance(b, Mult):
-            self.terms.extend(b.terms)
-        else:
-            self.terms.append(b)
-
-        assert self.max_rows == [t for t in self.terms if not t.is_scalar][0].max_rows
-        assert self.max_cols == self.terms[-1].max_cols
-        assert self.rows == [t for t in self.terms if not t.is_scalar][0].rows
-        assert self.cols == self.terms[-1].cols
-
-    def __hash__(self):
-        return hash(self.__repr__())
+        for factor in (a, b):
+            if isinstance(factor, Mult):
+                self.terms.extend(factor.terms)
+            else:
+                self.terms.append(-factor if factor.is_negative else factor)
 
     def __repr__(self):
         return ("-" if self.is_negative else "") + "*".join([
@@ -217,19 +212,12 @@ class Mult(BaseBlock):
             f"({t.render()})" if isinstance(t, Add) else t.render() for t in self.terms
         ])
 
-    def __eq__(self, other):
-        if self.commutative:
-            self_c = [t for t in self if t.is_scalar]
-            other_c = [t for t in other if t.is_scalar]
-            self_nc = [t for t in self if not t.is_scalar]
-            other_nc = [t for t in other if not t.is_scalar]
-
-            return ((len(self_c) == len(other_c)) and all([t in other_c for t in self_c])
-                    and all([t in self_c for t in other_c]) and self_nc == other_nc)
-        else:
-            if not isinstance(other, Mult):
-                return False
-            return self.terms == other.terms
+    def key(self):
+        # scalars may be multiplied in any order
+        return (
+            self.is_negative, "*", tuple(sorted(repr(t.key()) for t in self if t.is_scalar)),
+            tuple(t.key() for t in self if not t.is_scalar)
+        )
 
     def __getitem__(self, i):
         return self.terms[i]
@@ -237,24 +225,6 @@ class Mult(BaseBlock):
     def __len__(self):
         return len(self.terms)
 
-    def pop_front(self):
-        for i, t in enumerate(self.terms):
-            if t.is_scalar:
-                continue
-            popped_term = self.terms.pop(i)
-            self.rows = popped_term.cols
-            self.max_rows = popped_term.max_cols
-            return popped_term
-
-    def pop_back(self):
-        for i in reversed(range(len(self.terms))):
-            if self.terms[i].is_scalar:
-                continue
-            popped_term = self.terms.pop(i)
-            self.cols = popped_term.rows
-            self.max_cols = popped_term.max_rows
-            return popped_term
-
 
 class Add(BaseBlock):
     def __init__(self, a, b):
@@ -262,6 +232,7 @@ class Add(BaseBlock):
                                                         b.max_rows) or (a.max_cols != b.max_cols):
             raise RuntimeError("Mismatched block sizes for + operator")
         super().__init__(a.rows, a.cols, a.max_rows, a.max_cols)
+        self.is_scalar = a.is_scalar and b.is_scalar
 
         self.terms = []
         if isinstance(a, Add):
@@ -274,25 +245,19 @@ class Add(BaseBlock):
         else:
             self.terms.append(b)
 
+    def __neg__(self):
+        out = copy.copy(self)
+        out.terms = [-t for t in self.terms]
+        return out
+
     def __repr__(self):
-        return (" - " if self.is_negative else " + ").join([t.name for t in self.terms])
+        return " + ".join([t.name for t in self.terms])
 
     def render(self):
-        return ("-" if self.is_negative else " + ").join([t.render() for t in self.terms])
+        return " + ".join([t.render() for t in self.terms])
 
-    def __eq__(self, other):
-        if not isinstance(other, Add):
-            return False
-        for t in other:
-            if t not in self.terms:
-                return False
-        for t in self.terms:
-            if t not in other.terms:
-                return False
-        return True
-
-    def __hash__(self):
-        return hash(self.__repr__())
+    def key(self):
+        return ("+", tuple(sorted(repr(t.key()) for t in self.terms)))
 
     def __getitem__(self, i):
         return self.terms[i]
-- 
2.43.0


From cf821c0884cc5aa7126524807f2824361fde822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 075/102] fix: strap-down motion model of the filter: gravity
 and velocity in the body frame

---
 core/ekf/rtk_ekf.yaml     |  2 +-
 core/ekf/rtk_ekf_impl.cxx | 22 +++++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/core/ekf/rtk_ekf.yaml b/core/ekf/rtk_ekf.yaml
index 550cca3..bcd5a22 100644
--- a/core/ekf/rtk_ekf.yaml
+++ b/core/ekf/rtk_ekf.yaml
@@ -61,7 +61,7 @@ input:
 dynamics:
   #  pose, vel, acc_bias, gyro_bias, gps_clk, gal_clk, glo_clk, p_b2g, T_I2e, sd,
   pose: [[pose, vel, gyro_bias], [gyro]]
-  vel: [[pose, acc_bias], [accel]]
+  vel: [[pose, vel, acc_bias, gyro_bias], [accel, gyro]]
   acc_bias: [[], []]
   gyro_bias: [[], []]
   gps_clk: [[gps_clk], []]
diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 9141f93..9735bdc 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -11,23 +11,28 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
     const Vec3 omega = u.gyro - x.gyro_bias;
     const Vec3 acc = u.accel - x.acc_bias;
     static const Vec3 gravity = Vec3::Unit(2) * 9.80665;
+    const Vec3 gravity_b = x.pose.rotp(gravity);
 
     if (dxdx)
     {
         dxdx->setZero();
         auto dRotdRot = dxdx->dPose_dPose.block<3, 3>(0, 0);
         auto dPosdRot = dxdx->dPose_dPose.block<3, 3>(3, 0);
+        auto dPosdPos = dxdx->dPose_dPose.block<3, 3>(3, 3);
         auto dPosdVel = dxdx->dPose_dVel.block<3, 3>(3, 0);
         auto dRotdBg = dxdx->dPose_dGyroBias.block<3, 3>(0, 0);
         auto dVeldRot = dxdx->dVel_dPose.block<3, 3>(0, 0);
 
         dRotdRot = -skew(omega);
         dPosdRot = -skew(x.vel);
+        dPosdPos = -skew(omega);
         dPosdVel.setIdentity();
         dRotdBg = -Mat3::Identity();
-        dVeldRot = -skew(acc);
+        dVeldRot = skew(gravity_b);
 
+        dxdx->dVel_dVel = -skew(omega);
         dxdx->dVel_dAccBias = -Mat3::Identity();
+        dxdx->dVel_dGyroBias = -skew(x.vel);
     }
 
     if (dxdu)
@@ -35,12 +40,14 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dxdu->setZero();
         dxdu->dPose_dGyro.topRows<3>().setIdentity();
         dxdu->dVel_dAccel.setIdentity();
+        dxdu->dVel_dGyro = skew(x.vel);
     }
 
     ErrorState xdot;
     xdot.pose.head<3>() = omega;
     xdot.pose.tail<3>() = x.vel;
-    xdot.vel = x.pose.rota(gravity) + acc;
+    // the velocity is expressed in the rotating body frame
+    xdot.vel = acc + gravity_b - omega.cross(x.vel);
     xdot.acc_bias.setZero();
     xdot.gyro_bias.setZero();
     xdot.gps_clk.setZero();
@@ -61,10 +68,15 @@ ErrorState errorStateDynamics(const ErrorState& dx,
                               const Input& u,
                               const Input& eta)
 {
+    static const Vec3 gravity = Vec3::Unit(2) * 9.80665;
+    const Vec3 omega = u.gyro - x.gyro_bias;
+    const Vec3 domega = eta.gyro - dx.gyro_bias;
+
     ErrorState out = ErrorState::Zero();
-    out.pose.head<3>() = -(u.gyro - x.gyro_bias).cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
-    out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>());
-    out.vel = (-dx.acc_bias + eta.accel) - (u.accel - x.acc_bias).cross(dx.pose.head<3>());
+    out.pose.head<3>() = -omega.cross(dx.pose.head<3>()) + domega;
+    out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>()) - omega.cross(dx.pose.tail<3>());
+    out.vel = (-dx.acc_bias + eta.accel) + x.pose.rotp(gravity).cross(dx.pose.head<3>()) -
+              omega.cross(dx.vel) + x.vel.cross(domega);
     return out;
 }
 
-- 
2.43.0


From 7782b3402ba7478090d0eb620f18b5d988058375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 076/102] fix: couple the clock drift to the clock offset in
 the filter's covariance

---
 core/ekf/rtk_ekf_impl.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 9735bdc..a2ed6b5 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -33,6 +33,10 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dxdx->dVel_dVel = -skew(omega);
         dxdx->dVel_dAccBias = -Mat3::Identity();
         dxdx->dVel_dGyroBias = -skew(x.vel);
+
+        dxdx->dGpsClk_dGpsClk(0, 1) = 1.0;
+        dxdx->dGalClk_dGalClk(0, 1) = 1.0;
+        dxdx->dGloClk_dGloClk(0, 1) = 1.0;
     }
 
     if (dxdu)
@@ -77,6 +81,9 @@ ErrorState errorStateDynamics(const ErrorState& dx,
     out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>()) - omega.cross(dx.pose.tail<3>());
     out.vel = (-dx.acc_bias + eta.accel) + x.pose.rotp(gravity).cross(dx.pose.head<3>()) -
               omega.cross(dx.vel) + x.vel.cross(domega);
+    out.gps_clk(0) = dx.gps_clk(1);
+    out.gal_clk(0) = dx.gal_clk(1);
+    out.glo_clk(0) = dx.glo_clk(1);
     return out;
 }
 
-- 
2.43.0


From f5038b083b3b265af605c6fa024aa113765ccc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 077/102] fix: sign of the Sagnac term in the filter's Doppler
 prediction

---
 core/ekf/rtk_ekf_impl.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index a2ed6b5..19744d4 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -166,8 +166,8 @@ obsMeas::Residual h<obsMeas>(const obsMeas::ZType& z,
         const double est_doppler =
             (sat.state.vel - v_I2g_e).dot(e) +
             OMEGA_EARTH / C_LIGHT *
-                (sat.state.vel.y() * p_e2g_e.x() + sat.state.pos.y() * v_I2g_e.x() -
-                 sat.state.vel.x() * p_e2g_e.y() - sat.state.pos.x() * v_I2g_e.y()) +
+                (sat.state.vel.x() * p_e2g_e.y() + sat.state.pos.x() * v_I2g_e.y() -
+                 sat.state.vel.y() * p_e2g_e.x() - sat.state.pos.y() * v_I2g_e.x()) +
             C_LIGHT * dclock_rate;
 
         const Vec2 zhat_i = {est_prange, est_doppler};
-- 
2.43.0


From 93b49363c5ef532506dbe6acf377db2c3dfd7e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 078/102] fix: complete the Doppler derivatives of the filter

---
 core/ekf/rtk_ekf_impl.cxx | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 19744d4..175514e 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -177,21 +177,33 @@ obsMeas::Residual h<obsMeas>(const obsMeas::ZType& z,
         {
             const Mat3 R_b2e = q_b2e.R();
 
-            jac->dPose(i).topLeftCorner<1, 3>() = -e.T * R_b2e * skew(x.p_b2g);
-            jac->dPose(i).topRightCorner<1, 3>() = e.T * R_b2e;
-            jac->dPose(i).bottomLeftCorner<1, 3>() = -e.T * R_b2e * skew(v_I2g_b);
-            jac->dPose(i).bottomRightCorner<1, 3>().setZero();
+            // residual derivatives with respect to the position and velocity of the antenna
+            const Vec3 v_rel = sat.state.vel - v_I2g_e;
+            const Vec3 sagnac_p(-sat.state.vel.y(), sat.state.vel.x(), 0);
+            const Vec3 sagnac_v(-sat.state.pos.y(), sat.state.pos.x(), 0);
+            const Vec3 prange_p = e;
+            const Vec3 doppler_p =
+                (v_rel - v_rel.dot(e) * e) / los_norm - OMEGA_EARTH / C_LIGHT * sagnac_p;
+            const Vec3 doppler_v = e - OMEGA_EARTH / C_LIGHT * sagnac_v;
+
+            jac->dPose(i).topLeftCorner<1, 3>() = -prange_p.T * R_b2e * skew(x.p_b2g);
+            jac->dPose(i).topRightCorner<1, 3>() = prange_p.T * R_b2e;
+            jac->dPose(i).bottomLeftCorner<1, 3>() = -doppler_p.T * R_b2e * skew(x.p_b2g) -
+                                                     doppler_v.T * R_b2e * skew(v_I2g_b);
+            jac->dPose(i).bottomRightCorner<1, 3>() = doppler_p.T * R_b2e;
 
             jac->dVel(i).topRows<1>().setZero();
-            jac->dVel(i).bottomRows<1>() = e.T * R_b2e;
+            jac->dVel(i).bottomRows<1>() = doppler_v.T * R_b2e;
 
-            jac->dTI2e(i).topLeftCorner<1, 3>() = e.T * skew(p_e2g_e);
-            jac->dTI2e(i).topRightCorner<1, 3>() = -e.T * Mat3::Identity();
-            jac->dTI2e(i).bottomLeftCorner<1, 3>() = e.T * skew(R_b2e * v_I2g_b);
-            jac->dTI2e(i).bottomRightCorner<1, 3>().setZero();
+            jac->dTI2e(i).topLeftCorner<1, 3>() = prange_p.T * skew(p_e2g_e);
+            jac->dTI2e(i).topRightCorner<1, 3>() = -prange_p.T;
+            jac->dTI2e(i).bottomLeftCorner<1, 3>() =
+                doppler_p.T * skew(p_e2g_e) + doppler_v.T * skew(v_I2g_e);
+            jac->dTI2e(i).bottomRightCorner<1, 3>() = -doppler_p.T;
 
-            jac->dPB2g(i).topRows<1>() = e.T * R_b2e;
-            jac->dPB2g(i).bottomRows<1>() = e.T * q_b2e.rotp(skew(u.gyro));
+            jac->dPB2g(i).topRows<1>() = prange_p.T * R_b2e;
+            jac->dPB2g(i).bottomRows<1>() =
+                doppler_p.T * R_b2e + doppler_v.T * R_b2e * skew(u.gyro);
 
             jac->dGpsClk(i).setZero();
             jac->dGalClk(i).setZero();
-- 
2.43.0


From 54c911b264124e29fc7f984dabe89267e2a3a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 079/102] fix: correct the filter's state against the
 residual's derivative, not along it

---
 core/ekf/ekf_gen/ekf_gen_templates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index e4af240..c2ccc1d 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -708,8 +708,8 @@ Error doUpdate<{Meas}>(Out<Snapshot> snap,
         {ErrorState} dx;
         {SPARSE_COMPUTE_ERROR_STATE}
 
-        // x⁺ = x + dx
-        snap->x += dx;
+        // x⁺ = x - dx (H is the derivative of the residual z - h(x), so the correction is against dx)
+        snap->x += dx * -1.0;
 
         // P⁺ = P - PHᵀ ⋅ S⁻¹ ⋅ HP
         //    = P - K ⋅ (PHᵀ)ᵀ
-- 
2.43.0


From 522dbeced9f2133ec22e9a6d38e10d09b57ca709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 080/102] fix: an infinite value is not finite

---
 common/matrix_defs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/matrix_defs.h b/common/matrix_defs.h
index 68c6ad4..913271f 100644
--- a/common/matrix_defs.h
+++ b/common/matrix_defs.h
@@ -148,13 +148,13 @@ bool isNan(const Eigen::MatrixBase<Derived>& m)
 template <typename Derived>
 bool isFinite(const Eigen::MatrixBase<Derived>& m)
 {
-    return (m.array() == m.array()).all();
+    return m.allFinite();
 }
 
 template <typename Derived>
 bool isFinite(const Eigen::DiagonalBase<Derived>& m)
 {
-    return (m.diagonal().array() == m.diagonal().array()).all();
+    return m.diagonal().allFinite();
 }
 
 const Vec3 GRAVITY = 9.80665 * Vec3::UnitZ();
-- 
2.43.0


From 8f73805afb79a77cf42afa478e292675af1dd48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 081/102] fix: generate the inverse of the innovation with the
 name its size has

A measurement of variable size whose name has a capital letter or contains
"num_" gave code which did not compile.
---
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 0e4f2dd..0c66c83 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -403,11 +403,11 @@ def sparse_meas_update(cfg, key):
         inverse = "inverse()"
         HPHT_impl.append(f"const {make_type(Sinv[0,0])} Sinv = HPHT.{inverse};")
     else:
-        inverse = f"llt().solve(MatX::Identity(size_{meas_state.name}, size_{meas_state.name}))"
+        inverse = f"llt().solve(MatX::Identity({dim_meas}, {dim_meas}))"
         inverse = "inverse()"
         sinv_type = make_type(Sinv[0,0])
         HPHT_impl.append(f"{sinv_type} Sinv = {sinv_type}::Zero();")
-        block_args = f"0,0,size_{meas_state.name},size_{meas_state.name}"
+        block_args = f"0,0,{dim_meas},{dim_meas}"
         HPHT_impl.append(f"Sinv.block({block_args}) = HPHT.block({block_args}).{inverse};")
     tmp = "\n    ".join(HPHT_impl)
     SPARSE_INNOVATION = tmp.format(**symbol_varname)
-- 
2.43.0


From 61cfe589b84aacf0d2dcc16e9b2104c211d12164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 082/102] fix: size of a state with variable parts of several
 components

---
 core/ekf/ekf_gen/ekf_gen_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 11a93b4..8d6b247 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -98,7 +98,7 @@ def state_size(cfg):
     states = cfg['state_composition']
     accum = 0
     for s in states:
-        dim = s.dx if not s.variable else s.counter_var
+        dim = s.dx if not s.variable else f"{s.base_dx} * {s.counter_var}"
         accum = accumulate_expr(accum, dim)
     return accum
 
-- 
2.43.0


From d2fb351f97d2f6d48dec18b655910a9f38117b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 083/102] fix: updating with a measurement of fixed size which
 has metadata

The generated code did not compile, as nothing tells whether it is finite.
---
 core/ekf/ekf_gen/ekf_gen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index 0c94a69..6df356e 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -446,6 +446,11 @@ def meas_is_finite(cfg, key):
         out += "    return is_finite;\n"
         out += "}"
         return out
+    elif 'metadata' in meas_cfg:
+        out = f"bool isFinite(const {namespaces}::{make_camel(key)}Meas::ZType& z) {{\n"
+        out += "    return isFinite(z.z);\n"
+        out += "}"
+        return out
     return ""
 
 
@@ -545,7 +550,7 @@ def is_finite_decls(cfg):
         meas_cfg = cfg["measurements"][key]
         meas_state = State(key, meas_cfg['type'])
         type_name = f"{make_camel(key)}Meas"
-        if meas_state.variable:
+        if meas_state.variable or 'metadata' in meas_cfg:
             out.append(f"bool isFinite(const {namespaces}::{type_name}::ZType& z);")
         out.append(f"bool isFinite(const {namespaces}::{type_name}::Jac& z);")
     return "\n".join(out)
-- 
2.43.0


From 04d07cd285e93a7b06d0612c7d18bcfebe1c0ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 084/102] fix: an input called like a state

The derivatives of a state by a state and by an input of the same name had the
same symbol, so that one replaced the other.
---
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 0c66c83..8fd762f 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -63,13 +63,15 @@ def create_symbolic_dynamics_jacobian(cfg):
         row = []
         for c, cstate in enumerate(inputs):
             if cstate.name in cfg["dynamics"][rstate.name][1]:
-                name = jac_member_name(rstate, cstate)
+                member = jac_member_name(rstate, cstate)
+                # a state and an input may have the same name
+                name = f"{member}_u"
                 row.append(ConstBlock(name, dim(rstate), dim(cstate), rstate.dx, cstate.dx))
                 if rstate.variable or cstate.variable:
                     args = unique(s.counter_var for s in [rstate, cstate] if s.variable)
-                    symbol_varname[name] = f"dxdu.{name}({', '.join(args)})"
+                    symbol_varname[name] = f"dxdu.{member}({', '.join(args)})"
                 else:
-                    symbol_varname[name] = f"dxdu.{name}"
+                    symbol_varname[name] = f"dxdu.{member}"
             else:
                 row.append(ConstBlock("0", dim(rstate), dim(cstate), rstate.dx, cstate.dx))
         mat.append(row)
-- 
2.43.0


From 1cb5d5baaefc8763e1259bcd81ab8784ff5c78f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 085/102] fix: a filter state which is a rotation matrix

The code generated for it did not compile: SO3 has no setRandom().
---
 common/math/so3.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/math/so3.h b/common/math/so3.h
index 215ff9e..d2c8ec7 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -207,6 +207,8 @@ class SO3
         return SO3::exp(w);
     }
 
+    void setRandom() { *this = Random(); }
+
     Vec3 rotp(const Vec3& v) const { return rot_ * v; }
     Vec3 rota(const Vec3& v) const { return rot_.transpose() * v; }
 
-- 
2.43.0


From 707bbcd4bde1efd4edd9b079a41a9b3ce1458044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:00 +0000
Subject: [PATCH 086/102] fix: gate a measurement of fixed size one

---
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 8fd762f..605054f 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -415,7 +415,7 @@ def sparse_meas_update(cfg, key):
     SPARSE_INNOVATION = tmp.format(**symbol_varname)
 
     # Squared Mahalanobis distance of the residual
-    SPARSE_MAHAL = "{res}.transpose() * {Sinv} * {res}".format(**symbol_varname)
+    SPARSE_MAHAL = "({res}.transpose() * {Sinv}).dot({res})".format(**symbol_varname)
 
     # Compute Kalman Gain
     K_impl, K = commit_mat(PHT * Sinv, "K", already_checked_size=[H[0, 0].rows])
-- 
2.43.0


From f8604f12e23ad5dcfedb7a87af0c8b1896372a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:09 +0000
Subject: [PATCH 087/102] fix: simplification of expressions with a repeated
 identity

---
 core/ekf/ekf_gen/symb_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ekf/ekf_gen/symb_algebra.py b/core/ekf/ekf_gen/symb_algebra.py
index 920a94b..d0e08e1 100644
--- a/core/ekf/ekf_gen/symb_algebra.py
+++ b/core/ekf/ekf_gen/symb_algebra.py
@@ -96,7 +96,7 @@ def factor_first_term(expr):
         return next(t for t in factors_of(term) if not t.is_scalar)
 
     def find_common(a, b):
-        return first(a) if first(a) == first(b) else None
+        return first(a) if first(a) == first(b) and not first(a).is_identity else None
 
     def strip(term, common):
         factors = factors_of(term)
@@ -118,7 +118,7 @@ def factor_last_term(expr):
         return next(t for t in reversed(factors_of(term)) if not t.is_scalar)
 
     def find_common(a, b):
-        return last(a) if last(a) == last(b) else None
+        return last(a) if last(a) == last(b) and not last(a).is_identity else None
 
     def strip(term, common):
         factors = factors_of(term)
-- 
2.43.0


From 429cc9b0c3abfc4cd1895e07e9f7203f825c4b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 088/102] fix: size of block matrices with variable blocks
 before fixed ones

---
 core/ekf/ekf_gen/symb_block_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/symb_block_matrix.py b/core/ekf/ekf_gen/symb_block_matrix.py
index f2e611d..50e23e0 100644
--- a/core/ekf/ekf_gen/symb_block_matrix.py
+++ b/core/ekf/ekf_gen/symb_block_matrix.py
@@ -31,7 +31,7 @@ class SymBlockMatrix:
 
     def full_shape(self):
         def accumulate_expr(expr, dim):
-            if isinstance(dim, str):
+            if isinstance(dim, str) or isinstance(expr, str):
                 return f"{expr} + {dim}"
             else:
                 return expr + dim
-- 
2.43.0


From d386cffb2633c7baf5bd60bd3b035b911a38c2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 089/102] fix: an over-long receiver message stopped the parser

---
 parsers/ubx/ubx.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 47145a4..2dc952f 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -229,7 +229,7 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
             parse_state_ = GOT_LENGTH2;
             if (length_ > BUFFER_SIZE)
             {
-                warn("UBX message 0x{x}-0x{x} is too long ({} > {})",
+                warn("UBX message 0x{:x}-0x{:x} is too long ({} > {})",
                      fmt(message_class_, message_type_, length_, BUFFER_SIZE));
                 num_errors_++;
                 prev_byte_ = byte;
-- 
2.43.0


From 3af4d6097c0281cf2375602ebc00de10c47062b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 090/102] fix: receiver messages without a payload

---
 parsers/ubx/ubx.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 2dc952f..c3e1ea9 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -235,6 +235,10 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
                 prev_byte_ = byte;
                 restart();
             }
+            else if (length_ == 0)
+            {
+                parse_state_ = GOT_PAYLOAD;
+            }
             break;
         case GOT_LENGTH2:
             if (buffer_head_ < length_)
-- 
2.43.0


From 22e347c8123d851678f77d56d674f0c6d272d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 091/102] fix: reading the receiver's version reply

---
 parsers/ubx/ubx.cxx    | 9 +++++----
 parsers/ubx/ubx.h      | 6 +++---
 parsers/ubx/ubx_defs.h | 2 +-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index c3e1ea9..a56db24 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -422,7 +422,8 @@ void Ubx::write(const uint8_t *byte, const size_t size)
 
 void Ubx::versionCb()
 {
-    for (int i = 0; i < 20; ++i)
+    // The number of extension strings depends on the length of the message
+    for (int i = 0; i < 10 && length_ >= 40 + 30 * (i + 1); ++i)
     {
         if (strncmp(in_message_.MON_VER.extension[i], "PROTVER=", 8) == 0)
         {
@@ -443,7 +444,7 @@ void Ubx::versionCb()
 void Ubx::extractVersionString(const char *str)
 {
     // Get major version
-    char tmp[5];
+    char tmp[6] = {};
     const char *s = str + 8;
     for (int j = 0; j < 5; j++)
     {
@@ -476,11 +477,11 @@ void Ubx::extractVersionString(const char *str)
 void Ubx::extractModuleName(const char *str)
 {
     const char *s = str + 4;
-    for (size_t i = 0; i < sizeof(module_name_); i++)
+    memset(module_name_, 0, sizeof(module_name_));
+    for (size_t i = 0; i < sizeof(module_name_) - 1; i++)
     {
         if (*s == 0)
         {
-            module_name_[i] = 0;
             break;
         }
 
diff --git a/parsers/ubx/ubx.h b/parsers/ubx/ubx.h
index 119af75..518dfc5 100644
--- a/parsers/ubx/ubx.h
+++ b/parsers/ubx/ubx.h
@@ -127,9 +127,9 @@ class Ubx : public async_comm::CommListener
     // local storage
     volatile bool new_data_;
 
-    int major_version_;
-    int minor_version_;
-    char module_name_[10];
+    int major_version_ = 0;
+    int minor_version_ = 0;
+    char module_name_[27] = {};
 
     // Serial Port
     void write(const uint8_t byte);
diff --git a/parsers/ubx/ubx_defs.h b/parsers/ubx/ubx_defs.h
index e1bf217..a05f6af 100644
--- a/parsers/ubx/ubx_defs.h
+++ b/parsers/ubx/ubx_defs.h
@@ -825,7 +825,7 @@ typedef struct
 {
     char sw_version[30];     // Zero-terminated Software Version String.
     char hw_version[10];     // Zero-terminated Hardware Version String
-    char extension[30][10];  // Extended software information strings
+    char extension[10][30];  // Extended software information strings
 } __attribute__((packed)) MON_VER_t;
 
 typedef float R4;
-- 
2.43.0


From d50c3ef996257f1afb94144ad924e72597c71847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 092/102] fix: the survey-in command carried leftovers and a
 limit of 0.3 mm

---
 parsers/ubx/ubx.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index a56db24..d69e948 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -117,9 +117,10 @@ bool Ubx::sendMessage(uint8_t msg_class, uint8_t msg_id, UbxMessage &message, ui
 
 void Ubx::startSurveyIn()
 {
+    memset(&out_message_, 0, sizeof(CFG_TMODE3_t));
     out_message_.CFG_TMODE3.flags = CFG_TMODE3_t::SURVEY_IN;
-    out_message_.CFG_TMODE3.svin_min_dur = 60;   // Wait at least 1 minute
-    out_message_.CFG_TMODE3.svin_acc_limit = 3;  // At least within 3 centimeters
+    out_message_.CFG_TMODE3.svin_min_dur = 60;     // Wait at least 1 minute
+    out_message_.CFG_TMODE3.svin_acc_limit = 300;  // At least within 3 centimeters
     sendMessage(CLASS_CFG, CFG_TMODE3, out_message_, sizeof(CFG_TMODE3_t));
 }
 
-- 
2.43.0


From c06344924f285c56a7ee988a8c89830f8dd2a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:11 +0000
Subject: [PATCH 093/102] fix: gathered GLONASS observations had the frequency
 of another channel

---
 tools/gather_ephemeris.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/gather_ephemeris.cxx b/tools/gather_ephemeris.cxx
index d4bfcb6..c40f027 100644
--- a/tools/gather_ephemeris.cxx
+++ b/tools/gather_ephemeris.cxx
@@ -88,8 +88,10 @@ struct ObsListener : public ublox::UbxListener
         log.initStream<meas::GnssObservation>(logging::LogKey::GNSS_OBS, {"obs"});
     }
 
-    static double get_freq(int gnss_id, int sig_id, int slot)
+    // freq_id: GLONASS frequency channel as the receiver reports it (channel + 7)
+    static double get_freq(int gnss_id, int sig_id, int freq_id)
     {
+        const int slot = freq_id - 7;
         double freq = 0;
         switch (gnss_id)
         {
-- 
2.43.0


From 20254c6fb0c541d7b5f5f4baba610c25f66ac280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 094/102] fix: gathered Doppler was in Hz of the opposite sign
 instead of m/s

---
 tools/gather_ephemeris.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/gather_ephemeris.cxx b/tools/gather_ephemeris.cxx
index c40f027..8a9b307 100644
--- a/tools/gather_ephemeris.cxx
+++ b/tools/gather_ephemeris.cxx
@@ -142,10 +142,11 @@ struct ObsListener : public ublox::UbxListener
             o.sat_num = meas.sv_id;
             o.freq = get_freq(meas.gnss_id, meas.sig_id, meas.freq_id);
             o.pseudorange = meas.pr_meas;
-            o.doppler = meas.do_meas;
             o.carrier_phase = meas.cp_meas;
             if (o.freq > 0)
             {
+                // the receiver reports Hz, positive when approaching; here it is the range rate
+                o.doppler = -meas.do_meas * C_LIGHT / o.freq;
                 log_.log(logging::LogKey::GNSS_OBS, now, o);
             }
         }
-- 
2.43.0


From f85b36e521e716af4255b0cbda5c2fdd989cdcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 095/102] fix: gathered observations carried no time

---
 tools/gather_ephemeris.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/gather_ephemeris.cxx b/tools/gather_ephemeris.cxx
index 8a9b307..76c5d48 100644
--- a/tools/gather_ephemeris.cxx
+++ b/tools/gather_ephemeris.cxx
@@ -138,6 +138,7 @@ struct ObsListener : public ublox::UbxListener
             const ublox::RXM_RAWX_t::RawxMeas& meas = data.meas[i];
 
             meas::GnssObservation o;
+            o.t = now;
             o.gnss_id = meas.gnss_id;
             o.sat_num = meas.sv_id;
             o.freq = get_freq(meas.gnss_id, meas.sig_id, meas.freq_id);
-- 
2.43.0


From 8b27716c8c7216c3b7a9895cc089aa592626c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:57 +0000
Subject: [PATCH 096/102] fix: a configured heading broke the initial frame of
 post-processing

---
 tools/post_process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index 7a7bdd9..3f9cc8f 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -98,7 +98,7 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
         math::Quatd q_hdg = math::Quatd::from_euler(0, 0, heading_rad);
 
         x.T_I2e = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(lla_rad)).inverse();
-        x.T_I2e.real() = q_hdg * x.T_I2e.real();
+        x.T_I2e = math::DQuat<double>(q_hdg, Vec3::Zero()) * x.T_I2e;
     }
     cfg.get("p_b2g0", make_out(x.p_b2g), true);
 
-- 
2.43.0


From 19c04066139d1e8d085a6ef93d2b817698a434c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:57 +0000
Subject: [PATCH 097/102] fix: post-processing took the first antenna pose for
 the origin

---
 tools/post_process.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index 3f9cc8f..29f612e 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -67,6 +67,8 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
     Vec3 lla_deg = Vec3::Zero();
     double heading_deg = 0.0;
 
+    cfg.get("p_b2g0", make_out(x.p_b2g), true);
+
     bool use_init_sim_state = false;
     cfg.get("use_init_sim_state", make_out(use_init_sim_state), true);
 
@@ -82,7 +84,9 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
         u.accel = two_jet.d2x.linear() - Vec3(0, 0, 9.80665);
         u.gyro = two_jet.dx.angular();
 
-        x.T_I2e = T_e2g.inverse();
+        // T_e2g places the antenna, not the origin
+        const math::DQuat<double> T_b2g(math::Quat<double>::Identity(), x.p_b2g);
+        x.T_I2e = x.pose * T_b2g * T_e2g.inverse();
     }
     else
     {
@@ -100,8 +104,6 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
         x.T_I2e = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(lla_rad)).inverse();
         x.T_I2e = math::DQuat<double>(q_hdg, Vec3::Zero()) * x.T_I2e;
     }
-    cfg.get("p_b2g0", make_out(x.p_b2g), true);
-
     x.gps_clk.setZero();
     x.gal_clk.setZero();
     x.glo_clk.setZero();
-- 
2.43.0


From 934c2d774bc9a852656e09a122ceb687a8ae2bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:57 +0000
Subject: [PATCH 098/102] fix: post-processing started in 1970 with an
 undefined input

---
 tools/post_process.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index 29f612e..6d29864 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -91,6 +91,7 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
     else
     {
         t = log.startTime();
+        u = getInput(cfg);
         cfg.get("translation0", make_out(translation), true);
         cfg.get("rotation0", make_out(q.arr_), true);
         cfg.get("vel0", make_out(x.vel), true);
@@ -104,6 +105,7 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
         x.T_I2e = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(lla_rad)).inverse();
         x.T_I2e = math::DQuat<double>(q_hdg, Vec3::Zero()) * x.T_I2e;
     }
+    x.t = t;
     x.gps_clk.setZero();
     x.gal_clk.setZero();
     x.glo_clk.setZero();
-- 
2.43.0


From 8974ae59b15c1791732fdf6a91541ce603f5d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 099/102] fix: the simulation ignored the configured input
 noise

---
 sim/simulate.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/simulate.cxx b/sim/simulate.cxx
index 4804850..e5ba0e8 100644
--- a/sim/simulate.cxx
+++ b/sim/simulate.cxx
@@ -53,6 +53,7 @@ int main(int argc, char** argv)
     cfg.get("eph_log", make_out(options.gnss_options.ephemeris_log), true);
     cfg.get("output_dir", make_out(output_dir), true);
 
+    cfg.get("input_noise", make_out(options.input_noise));
     cfg.get("max_speed", make_out(options.wp_options.max_speed));
     cfg.get("max_omega", make_out(options.wp_options.max_omega));
     cfg.get("gnss_update_rate", make_out(options.gnss_options.update_rate_hz_));
-- 
2.43.0


From 7fa47e17098ed3f5e76d1ffea9cece1002ccbfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:46 +0000
Subject: [PATCH 100/102] fix: uniform random fills covered only the
 whole-number part of their range

---
 common/random.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/random.h b/common/random.h
index c60df38..660f7ce 100644
--- a/common/random.h
+++ b/common/random.h
@@ -29,7 +29,7 @@ Derived randomUniformat(double lower_bound, double upper_bound)
     static std::uniform_real_distribution<double> U(0, 1.0);
     static std::default_random_engine g;
     Derived out;
-    const int width = upper_bound - lower_bound;
+    const double width = upper_bound - lower_bound;
     for (int i = 0; i < Derived::RowsAtCompileTime; i++)
     {
         for (int j = 0; j < Derived::ColsAtCompileTime; j++)
@@ -60,7 +60,7 @@ inline Eigen::MatrixXd randomUniform(double lower_bound, double upper_bound, int
     static std::uniform_real_distribution<double> U(0, 1.0);
     static std::default_random_engine g;
     Eigen::MatrixXd out(rows, cols);
-    const int width = upper_bound - lower_bound;
+    const double width = upper_bound - lower_bound;
     for (int i = 0; i < rows; i++)
     {
         for (int j = 0; j < cols; j++)
-- 
2.43.0


From c8b3a7304354d483123d245fdcb7c4441959e346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:46 +0000
Subject: [PATCH 101/102] fix: RETURN_OR_ASSIGN made the call it was given
 twice

---
 common/error_result.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/common/error_result.h b/common/error_result.h
index 0e349fc..d41d916 100644
--- a/common/error_result.h
+++ b/common/error_result.h
@@ -5,11 +5,12 @@
 
 #define RETURN_OR_ASSIGN(err_result) \
     ({                               \
-        if (!err_result.ok())        \
+        const auto& res__ = (err_result); \
+        if (!res__.ok())             \
         {                            \
-            return err_result.err(); \
+            return res__.err();      \
         }                            \
-        err_result.res();            \
+        res__.res();                 \
     })
 
 namespace mc {
-- 
2.43.0


From a73f5726a5bfeba7f0cead09da023516edd8e8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:46 +0000
Subject: [PATCH 102/102] fix: the progress display dropped the days of a
 duration

---
 utils/progress_bar.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/progress_bar.cxx b/utils/progress_bar.cxx
index abd2f6e..95232df 100644
--- a/utils/progress_bar.cxx
+++ b/utils/progress_bar.cxx
@@ -126,8 +126,7 @@ std::string ProgressBar::ms_to_stamp(int ms)
     int min = ((ms - (millis + sec * 1000)) % (60 * 60 * 1000)) / (60 * 1000);
     int hour =
         ((ms - (millis + (sec + min * 60) * 1000)) % (24 * 60 * 60 * 1000)) / (60 * 60 * 1000);
-    int day = ((ms - (millis + (sec + (min + hour * 60) * 60) * 1000)) / (24 * 60 * 60 * 1000)) /
-              (24 * 60 * 60 * 1000);
+    int day = (ms - (millis + (sec + (min + hour * 60) * 60) * 1000)) / (24 * 60 * 60 * 1000);
     char buf[25];
     if (day > 0)
         sprintf(buf, "%d:%d:%02d:%02d:%03d", day, hour, min, sec, millis);
-- 
2.43.0

