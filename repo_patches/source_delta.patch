From 10433a7b1f7e38f5e4e933b5f83f91a964ed4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 01/16] fix: http: do not count a byte that was never received
 when the body ends

---
 src/http.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http.h b/src/http.h
index 67c8cb7..922309b 100644
--- a/src/http.h
+++ b/src/http.h
@@ -323,7 +323,10 @@ namespace abc {
 		std::size_t gcount = 0;
 
 		while (base::is_good() && gcount < size) {
-			buffer[gcount++] = base::get();
+			char ch = base::get();
+			if (base::is_good()) {
+				buffer[gcount++] = ch;
+			}
 		}
 
 		return gcount;
-- 
2.43.0


From 26ee96037bf64817c9cfd2d5f47b1f5d7c1c3185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 02/16] fix: http: do not scan past the end of a resource text
 when splitting it

---
 src/http.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http.h b/src/http.h
index 922309b..722d709 100644
--- a/src/http.h
+++ b/src/http.h
@@ -801,6 +801,9 @@ namespace abc {
 			if (param < end && *param != '\0') {
 				param = std::strchr(param, '&');
 			}
+			else {
+				param = nullptr;
+			}
 		}
 	}
 
-- 
2.43.0


From c713e047e8c29ae3bda5c47b58d22a6cb1865ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 03/16] fix: json: keep a long number inside its local buffer

---
 src/json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/json.h b/src/json.h
index 102102c..add2efc 100644
--- a/src/json.h
+++ b/src/json.h
@@ -413,20 +413,20 @@ namespace abc {
 		}
 
 		std::size_t gcount = 0;
-		char digits[19 + 6 + 1];
+		char digits[19 + 6 + 3 + 1]; // Always leave room for a decimal point, an exponent mark, and an exponent sign.
 
 		char ch = peek_char();
 		if (ch == '+' || ch == '-') {
 			digits[gcount++] = base::get();
 		}
 
-		gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
+		gcount += get_digits(digits + gcount, sizeof(digits) - gcount - 3);
 
 		ch = peek_char();
 		if (ch == '.') {
 			digits[gcount++] = base::get();
 
-			gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
+			gcount += get_digits(digits + gcount, sizeof(digits) - gcount - 2);
 		}
 
 		ch = peek_char();
-- 
2.43.0


From abe89139f834512bfe55dad7de5fde2fa9e6733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 04/16] fix: json: stop reading a string or skipping a value
 when the input ends or the buffer is full

---
 src/json.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/json.h b/src/json.h
index add2efc..27cf320 100644
--- a/src/json.h
+++ b/src/json.h
@@ -185,7 +185,7 @@ namespace abc {
 		do {
 			item = get_or_skip_token(nullptr, 0);
 		}
-		while (state::levels() > base_levels);
+		while (base::is_good() && state::levels() > base_levels);
 
 		if (log_local != nullptr) {
 			log_local->put_any(category::abc::json, severity::abc::optional, 0x10102, "json_istream::skip_value() <<< item=%4.4x", item);
@@ -213,7 +213,7 @@ namespace abc {
 
 		if (state::expect_property()) {
 			if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::property;
 
@@ -284,7 +284,7 @@ namespace abc {
 				gcount += sizeof(double);
 			}
 			else if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::string;
 				}
@@ -387,9 +387,18 @@ namespace abc {
 				else if (ch == '\\') {
 					char ech = get_escaped_char();
 					if (buffer != nullptr) {
+						if (gcount == size - 1) {
+							base::set_fail();
+							break;
+						}
 						buffer[gcount++] = ech;
 					}
 				}
+				else {
+					// The input has ended, or the string doesn't fit.
+					base::set_fail();
+					break;
+				}
 			}
 		}
 
-- 
2.43.0


From 74009699a9d2d1d1d302e0d59fd678602471a3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 05/16] fix: json: accept exactly four hex digits after \u, and
 no unknown escapes

---
 src/json.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index 27cf320..4fb869b 100644
--- a/src/json.h
+++ b/src/json.h
@@ -527,7 +527,10 @@ namespace abc {
 
 				char buffer[4 + 1];
 
-				std::size_t gcount = get_hex(buffer, sizeof(buffer));
+				std::size_t gcount = 0;
+				while (gcount < 4 && ascii::is_hex(peek_char())) {
+					buffer[gcount++] = get_char();
+				}
 
 				if (gcount != 4) {
 					if (log_local != nullptr) {
@@ -549,6 +552,14 @@ namespace abc {
 					ch = '\0';
 				}
 			}
+			else {
+				if (log_local != nullptr) {
+					log_local->put_any(category::abc::json, severity::important, 0x107b7, "json_istream::get_escaped_char() ch='%c' (\\u%4.4x). Unexpected.", ch, ch);
+				}
+
+				base::set_bad();
+				ch = '\0';
+			}
 		}
 		else {
 			if (log_local != nullptr) {
-- 
2.43.0


From 6879cef6a03ba5cc05baa67ca6f77d2f980dc2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 06/16] fix: moving a buffer_streambuf keeps its get and put
 positions

---
 src/buffer_streambuf.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buffer_streambuf.h b/src/buffer_streambuf.h
index 6ab0780..fd1874c 100644
--- a/src/buffer_streambuf.h
+++ b/src/buffer_streambuf.h
@@ -111,6 +111,8 @@ namespace abc {
 	template <typename Char>
 	inline basic_buffer_streambuf<Char>::basic_buffer_streambuf(basic_buffer_streambuf<Char>&& other) noexcept
 		: basic_buffer_streambuf<Char>(other._get_begin_ptr, other._get_end_ptr, other._put_begin_ptr, other._put_end_ptr) {
+		base::setg(other.eback(), other.gptr(), other.egptr());
+		base::pbump(static_cast<int>(other.pptr() - other.pbase()));
 	}
 
 
-- 
2.43.0


From d3592a550ad5f1b45b5ca4c0d01258bfbc9352a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 07/16] fix: line_ostream never counts more chars than its
 buffer holds

---
 src/table.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index 819a4f2..d6a93d3 100644
--- a/src/table.h
+++ b/src/table.h
@@ -140,8 +140,16 @@ namespace abc {
 
 	template <std::size_t Size>
 	inline void line_ostream<Size>::put_anyv(const char* format, va_list vlist) noexcept {
-		int pc = std::vsnprintf(_buffer + _pcount, Size - _pcount, format, vlist);
-		_pcount += pc;
+		if (_pcount >= Size) {
+			return;
+		}
+
+		// The text is truncated to fit, but vsnprintf() returns its full length, or a negative value on error.
+		std::size_t capacity = Size - _pcount;
+		int pc = std::vsnprintf(_buffer + _pcount, capacity, format, vlist);
+		if (pc > 0) {
+			_pcount += static_cast<std::size_t>(pc) < capacity ? static_cast<std::size_t>(pc) : capacity - 1;
+		}
 	}
 
 
-- 
2.43.0


From 612b20db01c52898fb3e8b18e26666305380dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:10 +0000
Subject: [PATCH 08/16] fix: test_line_ostream puts severity 0 without writing
 in front of its buffer

---
 src/log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log.h b/src/log.h
index 56c2efa..da7a2a1 100644
--- a/src/log.h
+++ b/src/log.h
@@ -227,7 +227,7 @@ namespace abc {
 		char buf_severity[2 * severity::abc::debug + 1];
 		severity = severity <= severity::abc::debug ? severity : severity::abc::debug;
 		std::memset(buf_severity, ' ', 2 * severity);
-		buf_severity[2 * (severity - 1)] = '\0';
+		buf_severity[severity > 0 ? 2 * (severity - 1) : 0] = '\0';
 		base::put_any(buf_severity);
 	}
 
-- 
2.43.0


From e11664aa2b89072f16e75ee5093fe423b0ea63ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:10 +0000
Subject: [PATCH 09/16] fix: put_thread_id always passes on a terminated text

---
 src/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index d6a93d3..dea1f2c 100644
--- a/src/table.h
+++ b/src/table.h
@@ -162,7 +162,7 @@ namespace abc {
 
 	template <std::size_t Size>
 	inline void line_ostream<Size>::put_thread_id(std::thread::id thread_id, const char* format) noexcept {
-		char buf[17];
+		char buf[17] = { };
 		buffer_streambuf sb(nullptr, 0, 0, buf, 0, sizeof(buf) - 1);
 
 		try {
-- 
2.43.0


From af22afc16285e46ccc264f2629960a403f5d93ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 10/16] fix: moving a line_ostream moves the pending text
 instead of duplicating it

---
 src/table.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index dea1f2c..0c26b84 100644
--- a/src/table.h
+++ b/src/table.h
@@ -90,9 +90,14 @@ namespace abc {
 	inline line_ostream<Size>::line_ostream(line_ostream<Size>&& other)
 		: base(std::move(other))
 		, _table(other._table)
-		, _sb(std::move(other._sb))
+		, _sb(nullptr, 0, 0, _buffer, 0, Size)
 		, _pcount(other._pcount) {
 		std::memmove(_buffer, other._buffer, sizeof(char) * (Size + 2));
+		std::ostream::rdbuf(&_sb);
+
+		// The pending text has been moved, so it must not be flushed by the other instance.
+		other._table = nullptr;
+		other._pcount = 0;
 	}
 
 
-- 
2.43.0


From 901337bdd5c8613b437615508db1895b8621ae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 11/16] fix: socket_streambuf reports characters that could not
 be sent and sends nothing for an end of file

---
 src/socket.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index 513e35e..f05b992 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -562,24 +562,28 @@ namespace abc {
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::overflow(std::streambuf::int_type ch) {
-		_socket->send(&_put_ch, sizeof(char));
-		_socket->send(&ch, sizeof(char));
+		if (sync() != 0) {
+			return traits_type::eof();
+		}
 
-		setp(&_put_ch, &_put_ch + 1);
+		if (!traits_type::eq_int_type(ch, traits_type::eof())) {
+			char put_ch = traits_type::to_char_type(ch);
+			if (_socket->send(&put_ch, sizeof(char)) != sizeof(char)) {
+				return traits_type::eof();
+			}
+		}
 
-		return ch;
+		return traits_type::not_eof(ch);
 	}
 
 
 	template <typename Socket, typename Log>
 	inline int socket_streambuf<Socket, Log>::sync() {
-		if (pptr() != &_put_ch) {
-			_socket->send(&_put_ch, sizeof(char));
-		}
+		bool is_sent = pptr() == pbase() || _socket->send(&_put_ch, sizeof(char)) == sizeof(char);
 
 		setp(&_put_ch, &_put_ch + 1);
 
-		return 0;
+		return is_sent ? 0 : -1;
 	}
 
 }
-- 
2.43.0


From 60dd3f3554b2b6365fe1d9ca474cc03aa73638ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 12/16] fix: moving a socket_streambuf keeps the character
 received and the one not yet sent

---
 src/socket.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/socket.h b/src/socket.h
index f05b992..b7befc6 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -541,8 +541,9 @@ namespace abc {
 		, _log(other._log)
 		, _get_ch(other._get_ch)
 		, _put_ch(other._put_ch) {
-		setg(&_get_ch, &_get_ch, &_get_ch);
+		setg(&_get_ch, &_get_ch + (other.gptr() - other.eback()), &_get_ch + (other.egptr() - other.eback()));
 		setp(&_put_ch, &_put_ch + 1);
+		pbump(static_cast<int>(other.pptr() - other.pbase()));
 
 		other._socket = nullptr;
 		other.setg(nullptr, nullptr, nullptr);
-- 
2.43.0


From 5a335119b2c386b8a6b8e87816a942070236fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 13/16] fix: socket_streambuf::underflow reports the end of the
 connection and bytes above 127

---
 src/socket.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index b7befc6..188c12e 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -553,11 +553,15 @@ namespace abc {
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::underflow() {
-		_socket->receive(&_get_ch, sizeof(char));
+		if (_socket->receive(&_get_ch, sizeof(char)) != sizeof(char)) {
+			setg(&_get_ch, &_get_ch, &_get_ch);
+
+			return traits_type::eof();
+		}
 
 		setg(&_get_ch, &_get_ch, &_get_ch + 1);
 
-		return _get_ch;
+		return traits_type::to_int_type(_get_ch);
 	}
 
 
-- 
2.43.0


From 83f28a3a2ac9bbefc9e8e66e5a391f7ab90e5310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 14/16] fix: endpoint does not serve files outside of its root
 directory

---
 src/endpoint.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index b533685..f890d7a 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -171,7 +171,7 @@ namespace abc {
 
 
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
-	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* /*resource*/, const char* path) {
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* resource, const char* path) {
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e4, "Received File Path = '%s'", path);
 		}
@@ -182,6 +182,14 @@ namespace abc {
 			return;
 		}
 
+		// If the resource leads up and possibly out of the root directory, return 404.
+		for (const char* segment = resource; *segment != '\0'; segment++) {
+			if ((segment == resource || segment[-1] == '/') && segment[0] == '.' && segment[1] == '.' && (segment[2] == '/' || segment[2] == '\0')) {
+				send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "Error: The requested resource was not found.", 0x104c6);
+				return;
+			}
+		}
+
 		// Check if the file exists.
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::optional, 0x102e6, "Root dir = '%s'", _config->root_dir);
-- 
2.43.0


From 67396cdc52c690a2506568d1c4e2286498f7c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 15/16] fix: endpoint rejects a root directory that is longer
 than its path buffer

---
 src/endpoint.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/endpoint.h b/src/endpoint.h
index f890d7a..6f85ea9 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -52,6 +52,9 @@ namespace abc {
 		, _log(log)
 		, _requests_in_progress(0)
 		, _is_shutdown_requested(false) {
+		if (config->root_dir_len > Limits::resource_size) {
+			throw exception<std::logic_error, Log>("endpoint::endpoint(config->root_dir)", 0x104c7, log);
+		}
 	}
 
 
-- 
2.43.0


From e85d0a85e4e93c4a28a0cadb532bd90bb35edecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:00 +0000
Subject: [PATCH 16/16] fix: timestamp::reset_date gets leap days right

---
 src/timestamp.h | 51 +++++++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/src/timestamp.h b/src/timestamp.h
index 1f78ae2..b3c769a 100644
--- a/src/timestamp.h
+++ b/src/timestamp.h
@@ -71,6 +71,7 @@ namespace abc {
 	static constexpr date_count_t days_per_100_years_leap = 25 * days_per_4_years;
 	static constexpr date_count_t days_per_100_years = days_per_100_years_leap - 1;
 	static constexpr date_count_t days_per_400_years = days_per_100_years_leap + 3 * days_per_100_years;
+	static constexpr date_count_t days_per_370_years = 3 * days_per_100_years + 17 * days_per_4_years + 2 * days_per_1_year;
 
 
 	// --------------------------------------------------------------
@@ -184,41 +185,33 @@ namespace abc {
 			remaining_days = remaining_days % days_per_400_years;
 		}
 
-		// The first century bounary is leap.
-		if (remaining_days >= days_per_100_years_leap) {
-			year += 100;
-			remaining_days -= days_per_100_years_leap;
-		}
-
-		// The following century boundaries are not leap.
-		// We artificailly make them leap.
-		if (remaining_days >= days_per_100_years) {
-			remaining_days += (remaining_days / days_per_100_years);
-		}
-
-		// Now we have homogenious 4-year chunks.
-		if (remaining_days >= days_per_4_years) {
-			year += 4 * (remaining_days / days_per_4_years);
-			remaining_days = remaining_days % days_per_4_years;
+		// Move the epoch further back to Mar 1, 1600, so that leap days only come at the end of 4-year and 400-year chunks.
+		year -= 370;
+		remaining_days += days_per_370_years;
+		if (remaining_days >= days_per_400_years) {
+			year += 400;
+			remaining_days -= days_per_400_years;
 		}
 
-		// Out of any remaining years, the first one is not leap.
-		if (remaining_days >= days_per_1_year) {
-			year++;
-			remaining_days -= days_per_1_year;
+		// The first 3 centuries don't end with a leap day. The last one does.
+		date_count_t centuries = remaining_days / days_per_100_years;
+		if (centuries > 3) {
+			centuries = 3;
 		}
+		year += 100 * centuries;
+		remaining_days -= days_per_100_years * centuries;
 
-		// The second year is leap.
-		if (remaining_days >= days_per_1_year_leap) {
-			year++;
-			remaining_days -= days_per_1_year_leap;
-		}
+		// 4-year chunks end with a leap day, except possibly the last one of the century.
+		year += 4 * (remaining_days / days_per_4_years);
+		remaining_days = remaining_days % days_per_4_years;
 
-		// The remaining year(s) are not leap.
-		if (remaining_days >= days_per_1_year) {
-			year += (remaining_days / days_per_1_year);
-			remaining_days = remaining_days % days_per_1_year;
+		// The first 3 years don't end with a leap day. The last one does.
+		date_count_t years = remaining_days / days_per_1_year;
+		if (years > 3) {
+			years = 3;
 		}
+		year += years;
+		remaining_days -= days_per_1_year * years;
 
 		// The remaining days are within 1 year (and we are based at Mar 1).
 
-- 
2.43.0

