From fd09d89d5131a1b6454fd95e3aa209837fa41dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 01/27] fix: Buffer must not read past the end of its data

Extraction past the end of the data indexed the vector out of bounds (undefined behaviour on any truncated
network reply).  Missing bytes now read as 0 while the position still advances, so isValid() reports them.
---
 src/utils/Buffer.cpp | 47 ++++++++++++++++++++++++++------------------
 src/utils/Buffer.h   |  3 +++
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/utils/Buffer.cpp b/src/utils/Buffer.cpp
index 0e3ed2a..1cc57b0 100644
--- a/src/utils/Buffer.cpp
+++ b/src/utils/Buffer.cpp
@@ -2,6 +2,7 @@
 // Created by flipback on 11/16/19.
 //
 
+#include <algorithm>
 #include "Buffer.h"
 
 namespace eipScanner {
@@ -18,6 +19,11 @@ namespace utils {
 	Buffer::Buffer() : _buffer(0), _position{0} {
 	}
 
+	uint8_t Buffer::nextByte() {
+		const size_t pos = _position++;
+		return pos < _buffer.size() ? _buffer[pos] : 0;
+	}
+
 	Buffer &Buffer::operator<<(uint8_t val) {
 		_buffer.push_back(val);
 		return *this;
@@ -25,7 +31,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint8_t &val) {
-		val = _buffer[_position++];
+		val = nextByte();
 		return *this;
 
 	}
@@ -37,7 +43,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(int8_t &val) {
-		val = static_cast<uint8_t>(_buffer[_position++]);
+		val = static_cast<uint8_t>(nextByte());
 		return *this;
 	}
 
@@ -48,8 +54,8 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint16_t &val) {
-		val = static_cast<uint16_t>(_buffer[_position++]);
-		val += static_cast<uint16_t>(_buffer[_position++] << 8);
+		val = static_cast<uint16_t>(nextByte());
+		val += static_cast<uint16_t>(nextByte() << 8);
 		return *this;
 	}
 
@@ -71,10 +77,10 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint32_t &val) {
-		val = static_cast<uint32_t>(_buffer[_position++]);
-		val += static_cast<uint32_t>(_buffer[_position++] << 8);
-		val += static_cast<uint32_t>(_buffer[_position++] << 16);
-		val += static_cast<uint32_t>(_buffer[_position++] << 24);
+		val = static_cast<uint32_t>(nextByte());
+		val += static_cast<uint32_t>(nextByte() << 8);
+		val += static_cast<uint32_t>(nextByte() << 16);
+		val += static_cast<uint32_t>(nextByte() << 24);
 
 		return *this;
 	}
@@ -101,14 +107,14 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint64_t &val) {
-		val = static_cast<uint64_t>(_buffer[_position++]);
-		val += static_cast<uint64_t>(_buffer[_position++]) << 8;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 16;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 24;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 32;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 40;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 48;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 56;
+		val = static_cast<uint64_t>(nextByte());
+		val += static_cast<uint64_t>(nextByte()) << 8;
+		val += static_cast<uint64_t>(nextByte()) << 16;
+		val += static_cast<uint64_t>(nextByte()) << 24;
+		val += static_cast<uint64_t>(nextByte()) << 32;
+		val += static_cast<uint64_t>(nextByte()) << 40;
+		val += static_cast<uint64_t>(nextByte()) << 48;
+		val += static_cast<uint64_t>(nextByte()) << 56;
 
 		return *this;
 	}
@@ -143,7 +149,10 @@ Buffer &Buffer::operator<<(float val) {
 	}
 
 	Buffer &Buffer::operator>>(std::vector<uint8_t> &val) {
-		std::copy(_buffer.begin() + _position, _buffer.begin() + _position + val.size(), val.begin());
+		const size_t start = std::min(_position, _buffer.size());
+		const size_t available = std::min(_buffer.size() - start, val.size());
+		std::copy(_buffer.begin() + start, _buffer.begin() + start + available, val.begin());
+		std::fill(val.begin() + available, val.end(), 0);
 		_position += val.size();
 		return *this;
 	}
@@ -159,8 +168,8 @@ Buffer &Buffer::operator<<(float val) {
 
 	Buffer &Buffer::operator>>(std::vector<uint16_t> &val) {
 		for (auto& v : val) {
-			v = static_cast<int16_t>(_buffer[_position++]);
-			v += static_cast<int16_t>(_buffer[_position++] << 8);
+			v = static_cast<int16_t>(nextByte());
+			v += static_cast<int16_t>(nextByte() << 8);
 		}
 
 		return *this;
diff --git a/src/utils/Buffer.h b/src/utils/Buffer.h
index 32c1409..63ad4f9 100644
--- a/src/utils/Buffer.h
+++ b/src/utils/Buffer.h
@@ -114,6 +114,9 @@ namespace utils {
 		bool isValid() const { return _position <= _buffer.size(); }
 		bool empty() const  { return  _position >= _buffer.size(); }
 	private:
+		// The next byte of the data; 0 when the data has run out
+		uint8_t nextByte();
+
 		std::vector<uint8_t> _buffer;
 		size_t _position;
 	};
-- 
2.43.0


From f279ce87d5dbba6523171da2b88853788cfc794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 02/27] fix: EndPoint::operator< must be a strict weak ordering

Comparing host AND port made endpoints equivalent although they differ, so a map keyed by endpoint (the
datagram sockets of ConnectionManager) found the entry of another device.
---
 src/sockets/EndPoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sockets/EndPoint.cpp b/src/sockets/EndPoint.cpp
index b6de7ad..e1b4c8b 100644
--- a/src/sockets/EndPoint.cpp
+++ b/src/sockets/EndPoint.cpp
@@ -67,7 +67,7 @@ namespace sockets {
 
 	bool EndPoint::operator< (const EndPoint& rhs) const {
 		return _host < rhs._host
-			   && _port < rhs._port;
+			   || (_host == rhs._host && _port < rhs._port);
 	}
 
 	std::string EndPoint::toString() const {
-- 
2.43.0


From 844f49d96831e803b3a5ef8302abab15f514398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 03/27] fix: EncapsPacket::getLengthFromHeader must not read
 past a short header

---
 src/eip/EncapsPacket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eip/EncapsPacket.cpp b/src/eip/EncapsPacket.cpp
index 64d2ed3..77f8ec4 100644
--- a/src/eip/EncapsPacket.cpp
+++ b/src/eip/EncapsPacket.cpp
@@ -99,6 +99,10 @@ namespace eip {
 	}
 
 	size_t EncapsPacket::getLengthFromHeader(const std::vector<uint8_t>& data) {
+		if (data.size() < 4) {
+			throw std::runtime_error("EncapsPacket header is too short to have a length");
+		}
+
 		std::vector<uint8_t> lengthVector(data.begin() + 2, data.begin() + 4);
 		Buffer buf(lengthVector);
 
-- 
2.43.0


From 9606e9d0bd4ff19907453e9da39d6425d978e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 04/27] fix: a default constructed CIP string has length 0

The length was left uninitialised, so encoding a default string wrote a random length prefix.
---
 src/cip/CipString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cip/CipString.h b/src/cip/CipString.h
index 1cdc713..c0857fb 100644
--- a/src/cip/CipString.h
+++ b/src/cip/CipString.h
@@ -42,7 +42,7 @@ namespace cip {
 		}
 
 	private:
-		T _length;
+		T _length{0};
 		std::vector<uint8_t> _data;
 	};
 
-- 
2.43.0


From 637cb46144b7caffbd979ccf89543523fa4ca26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 05/27] fix: a path expanded from segments with id 0 must keep
 those segments

---
 src/cip/EPath.cpp                              | 17 ++++++++++++++---
 src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/cip/EPath.cpp b/src/cip/EPath.cpp
index 447ef30..18c64b6 100644
--- a/src/cip/EPath.cpp
+++ b/src/cip/EPath.cpp
@@ -132,6 +132,11 @@ namespace cip {
 		_attributeId = 0;
 		_size = 0;
 
+		// an id may be 0, so the size depends on the segments and not on their ids
+		bool hasClass = false;
+		bool hasObject = false;
+		bool hasAttribute = false;
+
 		for (int i = 0; i < data.size() && !buffer.empty(); ++i) {
 			EPathSegmentTypes segmentType;
 			CipUsint ignore = 0;
@@ -142,26 +147,32 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					hasAttribute = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					hasAttribute = true;
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
@@ -172,13 +183,13 @@ namespace cip {
 			throw std::runtime_error("Wrong EPATH format");
 		}
 
-		if (_classId > 0) {
+		if (hasClass) {
 			_size++;
 
-			if (_objectId > 0) {
+			if (hasObject) {
 				_size++;
 
-				if (_attributeId > 0) {
+				if (hasAttribute) {
 					_size++;
 				}
 			}
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
index db26946..37f940b 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
@@ -102,6 +102,11 @@ namespace cip {
 		_attributeId = 0;
 		_size = 0;
 
+		// an id may be 0, so the size depends on the segments and not on their ids
+		bool hasClass = false;
+		bool hasObject = false;
+		bool hasAttribute = false;
+
 		for (int i = 0; i < data.size() && !buffer.empty(); ++i) {
 			EPathSegmentTypes segmentType;
 			CipUsint ignore = 0;
@@ -112,26 +117,32 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					hasAttribute = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					hasAttribute = true;
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
@@ -142,13 +153,13 @@ namespace cip {
 			throw std::runtime_error("Wrong EPATH format");
 		}
 
-		if (_classId > 0) {
+		if (hasClass) {
 			_size++;
 
-			if (_objectId > 0) {
+			if (hasObject) {
 				_size++;
 
-				if (_attributeId > 0) {
+				if (hasAttribute) {
 					_size++;
 				}
 			}
-- 
2.43.0


From b2f7676d04d993080cd888cd656c3ef796372fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:20 +0000
Subject: [PATCH 06/27] fix:
 NetworkConnectionParametersBuilder::setRedundantOwner returns the builder
 itself

It returned a copy, so setters chained after it were lost.
---
 .../connectionManager/NetworkConnectionParametersBuilder.cpp    | 2 +-
 src/cip/connectionManager/NetworkConnectionParametersBuilder.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
index 219a191..5e34c08 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
@@ -19,7 +19,7 @@ namespace connectionManager {
 
 	}
 
-	NetworkConnectionParametersBuilder NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
+	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
 		if (_lfo) {
 			_value |= (val << 31);
 		} else {
diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
index ba091fa..203bb1a 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
@@ -41,7 +41,7 @@ namespace connectionManager {
 		NetworkConnectionParametersBuilder(CipUdint val = 0, bool lfo = false);
 		virtual ~NetworkConnectionParametersBuilder() = default;
 
-		NetworkConnectionParametersBuilder setRedundantOwner(RedundantOwner val);
+		NetworkConnectionParametersBuilder& setRedundantOwner(RedundantOwner val);
 		NetworkConnectionParametersBuilder& setConnectionType(ConnectionType val);
 		NetworkConnectionParametersBuilder& setPriority(Priority val);
 		NetworkConnectionParametersBuilder& setType(Type val);
-- 
2.43.0


From 3637c5c31ec27c9897f46861caefe0b1c1b69a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 07/27] fix: sockets report a failed send

The result -1 was compared as an unsigned number, so errors were never seen.
---
 src/sockets/TCPSocket.cpp | 4 ++--
 src/sockets/UDPSocket.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index bbceaac..0cfb7f0 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -132,8 +132,8 @@ namespace eipScanner {
 			// Do not generate SIGPIPE when calling send() on closed socket
 			flags |= MSG_NOSIGNAL;
 #endif
-			int count = send(_sockedFd, (char*)data.data(), data.size(), flags);
-			if (count < data.size()) {
+			auto count = send(_sockedFd, (char*)data.data(), data.size(), flags);
+			if (count < 0 || static_cast<size_t>(count) < data.size()) {
 				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 			}
 		}
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 04f1ddb..7930eb6 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -59,9 +59,9 @@ namespace sockets {
 		flags |= MSG_NOSIGNAL;
 #endif
 		auto addr = _remoteEndPoint.getAddr();
-		int count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
+		auto count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
 				(struct sockaddr *)&addr, sizeof(addr));
-		if (count < data.size()) {
+		if (count < 0 || static_cast<size_t>(count) < data.size()) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 	}
-- 
2.43.0


From 4f07bf19bbd25e46d02c36e38b2bf7d4087d98c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 08/27] fix: TCPSocket::Receive returns only the bytes received

When the peer closed early the result was padded with zeros to the requested size,
and the byte counter overflowed for sizes above 2 GiB.
---
 src/sockets/TCPSocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 0cfb7f0..9ce0700 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -141,7 +141,7 @@ namespace eipScanner {
 		std::vector<uint8_t> TCPSocket::Receive(size_t size) const {
 			std::vector<uint8_t> recvBuffer(size);
 
-			int count = 0;
+			size_t count = 0;
 			while (size > count) {
 				auto len = recv(_sockedFd, (char*)(recvBuffer.data() + count), size - count, 0);
 				if (len < 0) {
@@ -163,6 +163,7 @@ namespace eipScanner {
 			if (size != count) {
 				Logger(LogLevel::WARNING) << "Received from " << _remoteEndPoint.toString()
 										  << " " << count << " of " << size;
+				recvBuffer.resize(count);
 			}
 
 			return recvBuffer;
-- 
2.43.0


From 665145e5243e2a47215f4eaa96d6d0e7b952910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 09/27] fix: UDPSocket receives return exactly the datagram

The result was padded with zeros to the requested size.
---
 src/sockets/UDPSocket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 7930eb6..c9c7bef 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -75,6 +75,7 @@ namespace sockets {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		recvBuffer.resize(len);
 		return recvBuffer;
 	}
 
@@ -88,6 +89,7 @@ namespace sockets {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		recvBuffer.resize(len);
 		endPoint = EndPoint(addr);
 		return recvBuffer;
 	}
-- 
2.43.0


From 5707d88564f5a4254d197eb1cbb661522550c249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 10/27] fix: TCPSocket waits again when connecting is
 interrupted by a signal

An interrupted select was reported as a timeout.
---
 src/sockets/TCPSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 9ce0700..916fb1d 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -86,7 +86,7 @@ namespace eipScanner {
 									throw std::system_error(err, BaseSocket::getErrorCategory());
 								}
 								break;
-							} else {
+							} else if (res == 0) {
 								throw std::system_error(EIPSCANNER_SOCKET_ERROR(ETIMEDOUT), BaseSocket::getErrorCategory());
 							}
 						} while (1);
-- 
2.43.0


From a4d6e6e1cd59846caac5d3f90505bf06abf20586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:15 +0000
Subject: [PATCH 11/27] fix: UDPSocket reads errno before logging

Writing the log line could replace the error code of the failed receive.
---
 src/sockets/UDPSocket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index c9c7bef..2d20233 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -70,10 +70,10 @@ namespace sockets {
 		std::vector<uint8_t> recvBuffer(size);
 
 		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
-		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
+		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 
 		recvBuffer.resize(len);
 		return recvBuffer;
@@ -84,10 +84,10 @@ namespace sockets {
 		struct sockaddr_in addr;
 		socklen_t addrFromLength = sizeof(addr);
 		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, (struct sockaddr*)&addr, &addrFromLength);
-		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
+		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 
 		recvBuffer.resize(len);
 		endPoint = EndPoint(addr);
-- 
2.43.0


From 31e9ba712667337c951de9232e17f81b8873c16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 12/27] fix: closing a session must not throw from the
 destructor

---
 src/SessionInfo.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index cbfb179..fffc9e5 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -39,9 +39,13 @@ namespace eipScanner {
 	}
 
 	SessionInfo::~SessionInfo() {
-		EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
-		_socket.Send(packet.pack());
-		Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		try {
+			EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
+			_socket.Send(packet.pack());
+			Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		} catch (const std::exception& e) {
+			Logger(LogLevel::ERROR) << "Failed to unregister session " << _sessionHandle << ": " << e.what();
+		}
 	}
 
 	EncapsPacket SessionInfo::sendAndReceive(const EncapsPacket& packet) const {
-- 
2.43.0


From 5ba6129dfc7c0c2909e5451ec732e6f87f702dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 13/27] fix: IOConnection ignores data too short for its
 headers

---
 src/IOConnection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 5571496..d7aa48b 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -79,6 +79,12 @@ namespace eipScanner {
 			buffer >> sequenceValueCount;
 		}
 
+		if (!buffer.isValid()) {
+			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
+				<< " received " << data.size() << " bytes, too short for its headers. Ignore this data.";
+			return;
+		}
+
 		std::vector<uint8_t> ioData(data.begin() + buffer.pos(), data.end());
 		if (_t2oFixedSize && ioData.size() != _t2oDataSize) {
 			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
-- 
2.43.0


From b4120dab9dfd93aa50af3fcf6c2deac38425481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 14/27] fix: IOConnection counts elapsed time in microseconds
 without dropping fractions of a millisecond

---
 src/IOConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index d7aa48b..cb3c1c0 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -100,9 +100,9 @@ namespace eipScanner {
 	bool IOConnection::notifyTick() {
 		auto now = std::chrono::steady_clock::now();
 		auto sinceLastHandle =
-			std::chrono::duration_cast<std::chrono::milliseconds>(now - _lastHandleTime);
+			std::chrono::duration_cast<std::chrono::microseconds>(now - _lastHandleTime);
 
-		auto periodInMicroS = sinceLastHandle.count() * 1000;
+		auto periodInMicroS = sinceLastHandle.count();
 		_connectionTimeoutCount += periodInMicroS;
 		if (_connectionTimeoutCount > _connectionTimeoutMultiplier * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
-- 
2.43.0


From 4547d99b4dcb9e297f79e9b03a4fdbd859fa3e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 15/27] fix: the timeout of an implicit connection must not
 overflow

---
 src/IOConnection.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/IOConnection.h b/src/IOConnection.h
index 9058d89..4324ea8 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -80,11 +80,11 @@ namespace eipScanner {
 		bool _o2tFixedSize;
 		bool _t2oFixedSize;
 
-		cip::CipUdint _o2tTimer;
+		cip::CipUlint _o2tTimer;
 		cip::CipUdint _t2o_timer;
 
-		cip::CipUsint _connectionTimeoutMultiplier;
-		cip::CipUdint _connectionTimeoutCount;
+		cip::CipUlint _connectionTimeoutMultiplier;
+		cip::CipUlint _connectionTimeoutCount;
 
 		cip::CipUdint _o2tSequenceNumber;
 		cip::CipUdint _t2oSequenceNumber;
-- 
2.43.0


From 03a91b2a3875de982ead3161416cb46d79c574d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:53 +0000
Subject: [PATCH 16/27] fix: ConnectionManager keeps connections under their
 full 32-bit id

---
 src/ConnectionManager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConnectionManager.h b/src/ConnectionManager.h
index a317067..ab54392 100644
--- a/src/ConnectionManager.h
+++ b/src/ConnectionManager.h
@@ -75,7 +75,7 @@ namespace eipScanner {
 		bool hasOpenConnections() const;
 	private:
 		MessageRouter::SPtr _messageRouter;
-		std::map<cip::CipUint, IOConnection::SPtr> _connectionMap;
+		std::map<cip::CipUdint, IOConnection::SPtr> _connectionMap;
 		std::map<sockets::EndPoint, std::shared_ptr<sockets::UDPBoundSocket>> _socketMap;
 
 		sockets::UDPBoundSocket::SPtr  findOrCreateSocket(const sockets::EndPoint& endPoint);
-- 
2.43.0


From 7ddf07ffec36f254efb62736516f2f9624da823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:53 +0000
Subject: [PATCH 17/27] fix: ConnectionManager ignores malformed datagrams

---
 src/ConnectionManager.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index a4c76a2..c5c3092 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -239,12 +239,27 @@ namespace eipScanner {
 			newSocket->setBeginReceiveHandler([this](BaseSocket& sock) {
 				auto recvData = sock.Receive(8192);
 				CommonPacket commonPacket;
-				commonPacket.expand(recvData);
+				try {
+					commonPacket.expand(recvData);
+				} catch (const std::runtime_error& e) {
+					Logger(LogLevel::WARNING) << "Received malformed data: " << e.what() << ". Ignore this data.";
+					return;
+				}
 
 				// TODO: Check TypeIDs and sequence of the packages
+				if (commonPacket.getItems().size() < 2) {
+					Logger(LogLevel::WARNING) << "Received data without an address and a data item. Ignore this data.";
+					return;
+				}
+
 				Buffer buffer(commonPacket.getItems().at(0).getData());
 				cip::CipUdint connectionId;
 				buffer >> connectionId;
+				if (!buffer.isValid()) {
+					Logger(LogLevel::WARNING) << "Received data with a too short address item. Ignore this data.";
+					return;
+				}
+
 				Logger(LogLevel::DEBUG) << "Received data from connection T2O_ID=" << connectionId;
 
 				auto io = _connectionMap.find(connectionId);
-- 
2.43.0


From 65cfbe6db7cb2e50a1285919a306ddcec219521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:53 +0000
Subject: [PATCH 18/27] fix: waiting without sockets must not read past the end
 of the list

---
 src/sockets/BaseSocket.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index efb71db..173fda0 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -118,9 +118,10 @@ namespace sockets {
 	}
 
 	void BaseSocket::select(std::vector<BaseSocket::SPtr> sockets, std::chrono::milliseconds timeout) {
-		BaseSocket::SPtr socketWithMaxFd = *std::max_element(sockets.begin(), sockets.end(), [](auto sock1, auto sock2) {
-			return sock1->getSocketFd() < sock2->getSocketFd();
-		});
+		int maxFd = -1;
+		for (auto& sock : sockets) {
+			maxFd = std::max(maxFd, sock->getSocketFd());
+		}
 
 		auto startTime = std::chrono::steady_clock::now();
 		auto stopTime = startTime + timeout;
@@ -134,7 +135,7 @@ namespace sockets {
 				FD_SET(sock->getSocketFd(), &recvSet);
 			}
 
-			ready = ::select(socketWithMaxFd->getSocketFd() + 1, &recvSet, NULL, NULL, &tv);
+			ready = ::select(maxFd + 1, &recvSet, NULL, NULL, &tv);
 			if (ready < 0) {
 				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 			}
-- 
2.43.0


From 04a1dd7cebe94de6d19d0a8e88b6e8d4587d9bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:53 +0000
Subject: [PATCH 19/27] fix: BaseSocket::select returns when its time has
 passed

---
 src/sockets/BaseSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index 173fda0..198fb92 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -148,7 +148,7 @@ namespace sockets {
 			}
 
 			startTime = std::chrono::steady_clock::now();
-		} while(ready > 0);
+		} while(ready > 0 && startTime < stopTime);
 	}
 
 	const EndPoint &BaseSocket::getRemoteEndPoint() const {
-- 
2.43.0


From 502198c72225e9adc0fcdbd81c699228de23f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 20/27] fix: a failed or truncated transfer ends the file
 upload with an error

---
 src/fileObject/FileObjectLoadedState.cpp           |  7 +++++++
 src/fileObject/FileObjectUploadInProgressState.cpp | 13 +++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/fileObject/FileObjectLoadedState.cpp b/src/fileObject/FileObjectLoadedState.cpp
index f078943..a9bd649 100644
--- a/src/fileObject/FileObjectLoadedState.cpp
+++ b/src/fileObject/FileObjectLoadedState.cpp
@@ -31,6 +31,13 @@ namespace fileObject {
 			cip::CipUsint transferSize = 0;
 
 			buffer >> fileSize >> transferSize;
+
+			if (!buffer.isValid()) {
+				logWithStateName(LogLevel::ERROR, "Too short reply to the request of uploading");
+				handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+				return;
+			}
+
 			setState<FileObjectUploadInProgressState>(fileSize, transferSize, handler);
 
 		} else {
diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 0054a26..1bb6a39 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -57,6 +57,18 @@ namespace fileObject {
 				return false;
 			}
 
+			const bool isLastTransfer = transferPacketType == TransferPacketTypeCodes::LAST
+					|| transferPacketType == TransferPacketTypeCodes::FIRST_AND_LAST;
+			const bool isChunk = transferPacketType == TransferPacketTypeCodes::FIRST
+					|| transferPacketType == TransferPacketTypeCodes::MIDDLE;
+			const size_t packetSize = response.getData().size();
+			// The transfer number and the packet type are followed by a whole chunk or, in the end, by the checksum at least
+			if ((isChunk && packetSize < 2u + _transferSize) || (isLastTransfer && packetSize < 4u)) {
+				logWithStateName(LogLevel::ERROR, "Too short transfer packet");
+				_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+				return false;
+			}
+
 			switch (transferPacketType) {
 				case TransferPacketTypeCodes::FIRST: {
 					std::vector<uint8_t> fileData(_transferSize);
@@ -94,6 +106,7 @@ namespace fileObject {
 		} else {
 			logGeneralAndAdditionalStatus(response);
 			_handler(response.getGeneralStatusCode(), std::vector<uint8_t>());
+			return false;
 		}
 
 		return true;
-- 
2.43.0


From f8b60fd9bae0e97b45e032012ea1bc949567e462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 21/27] fix: a reply without the file state is rejected

---
 src/fileObject/FileObjectState.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fileObject/FileObjectState.cpp b/src/fileObject/FileObjectState.cpp
index 84d4bc2..ed33c8e 100644
--- a/src/fileObject/FileObjectState.cpp
+++ b/src/fileObject/FileObjectState.cpp
@@ -64,6 +64,10 @@ namespace fileObject {
 			cip::CipUsint stateCode;
 			buffer >> stateCode;
 
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Reply is too short to hold the state of File Object");
+			}
+
 			switch (static_cast<FileObjectStateCodes>(stateCode)) {
 				case FileObjectStateCodes::NONEXISTENT:
 					setState<FileObjectNonExistentState>();
-- 
2.43.0


From 069e8ddb47f8f105d6caf2376b53d3a5209c0bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 22/27] fix: a truncated identity reply is rejected and the
 asked instance is read

---
 src/IdentityObject.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IdentityObject.cpp b/src/IdentityObject.cpp
index 0e771c9..cebc3d9 100644
--- a/src/IdentityObject.cpp
+++ b/src/IdentityObject.cpp
@@ -37,7 +37,7 @@ namespace eipScanner {
 		auto response = messageRouter->sendRequest(
 				si,
 				ServiceCodes::GET_ATTRIBUTE_ALL,
-				EPath(CLASS_ID, 1),
+				EPath(CLASS_ID, instanceId),
 				{});
 
 		if (response.getGeneralStatusCode() == GeneralStatusCodes::SUCCESS) {
@@ -48,7 +48,7 @@ namespace eipScanner {
 				>> _productName;
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 		} else {
-- 
2.43.0


From ba89a2408d0572d766098231caeadb4904103065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 23/27] fix: discovery skips malformed datagrams and truncated
 or foreign items

---
 src/DiscoveryManager.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/DiscoveryManager.cpp b/src/DiscoveryManager.cpp
index f8a118a..bdff1b9 100644
--- a/src/DiscoveryManager.cpp
+++ b/src/DiscoveryManager.cpp
@@ -19,6 +19,7 @@ namespace eipScanner {
 	using eip::EncapsStatusCodes;
 	using eip::EncapsCommands;
 	using eip::CommonPacket;
+	using eip::CommonPacketItemIds;
 
 	using sockets::EndPoint;
 	using sockets::UDPSocket;
@@ -45,10 +46,24 @@ namespace eipScanner {
 				const size_t EIP_MAX_PACKET_SIZE = 504;
 				auto data = socket->Receive(EIP_MAX_PACKET_SIZE);
 
+				if (data.size() < EncapsPacket::HEADER_SIZE) {
+					Logger(LogLevel::WARNING) << "Discovery: ignore a datagram without the encapsulation header";
+					continue;
+				}
+
 				CommonPacket commonPacket;
-				commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
+				try {
+					commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
+				} catch (std::runtime_error& er) {
+					Logger(LogLevel::WARNING) << "Discovery: ignore a malformed datagram: " << er.what();
+					continue;
+				}
 
 				for (int i=0; i < commonPacket.getItems().size(); ++i) {
+					if (commonPacket.getItems()[i].getTypeId() != CommonPacketItemIds::LIST_IDENTITY) {
+						continue;
+					}
+
 					Buffer buffer(commonPacket.getItems()[i].getData());
 					CipUint ignore;
 					sockets::EndPoint socketAddr("", 0);
@@ -65,6 +80,11 @@ namespace eipScanner {
 						   >> revision >> status
 						   >> serialNumber >> productName;
 
+					if (!buffer.isValid()) {
+						Logger(LogLevel::WARNING) << "Discovery: ignore a truncated item";
+						continue;
+					}
+
 					IdentityObject identityObject(i);
 					identityObject.setVendorId(vendorId);
 					identityObject.setDeviceType(deviceType);
-- 
2.43.0


From b0ea8cb777bb9ba4bab212c05fcd316a88502823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 24/27] fix: a truncated fault parameter is rejected

---
 src/vendor/ra/powerFlex525/DPIFaultParameter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
index db43afb..f3f0237 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
@@ -169,6 +169,10 @@ namespace powerFlex525 {
 			CipUint value;
 			buffer >> value;
 
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data to read fault attributes");
+			}
+
 			return value;
 
 		} else {
-- 
2.43.0


From 2bdece32a756652b12ad8afd7094b343fda929d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 25/27] fix: truncated parameter replies are rejected

---
 src/ParameterObject.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index adc702b..96aa49b 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -94,6 +94,10 @@ namespace eipScanner {
 			Buffer buffer(response.getData());
 			buffer >> dataSize;
 
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
 			_value.resize(dataSize);
 			_minValue.resize(dataSize);
 			_maxValue.resize(dataSize);
@@ -143,6 +147,10 @@ namespace eipScanner {
 					buffer >> ignore
 						>> _precision;
 
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Not enough data in the response");
+					}
+
 					std::vector<uint8_t> data;
 					for (int attrId = ParameterObjectAttributeIds::SCALING_MULTIPLIER;
 						 attrId <= ParameterObjectAttributeIds::SCALING_OFFSET;
@@ -157,7 +165,12 @@ namespace eipScanner {
 							throw std::runtime_error("Failed to read value of attribute=" + std::to_string(attrId));
 						}
 
-						data.insert(data.end(), response.getData().begin(), response.getData().end());
+						if (response.getData().size() < sizeof(CipUint)) {
+							throw std::runtime_error("Not enough data in the response");
+						}
+
+						data.insert(data.end(), response.getData().begin(),
+								response.getData().begin() + sizeof(CipUint));
 					}
 
 					buffer = Buffer(data);
@@ -167,7 +180,7 @@ namespace eipScanner {
 			}
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 			Logger(LogLevel::DEBUG) << "Read Parameter Object"
@@ -189,7 +202,14 @@ namespace eipScanner {
 
 		if (response.getGeneralStatusCode() == GeneralStatusCodes::SUCCESS) {
 			Buffer buffer(response.getData());
-			buffer >> _value;
+			std::vector<uint8_t> value(_value.size());
+			buffer >> value;
+
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
+			_value = value;
 		} else {
 			cip::logGeneralAndAdditionalStatus(response);
 			throw std::runtime_error("Failed to read value");
-- 
2.43.0


From 9e0fc24508ece841afaa42b44020d160bd07f759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 26/27] fix: scaling in double precision does not overflow an
 integer product

---
 src/ParameterObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index 96aa49b..66cee09 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -326,7 +326,7 @@ namespace eipScanner {
 	cip::CipLreal ParameterObject::engToActualValue(cip::CipLreal engValue) const {
 		if (_isScalable) {
 			return (engValue * _scalingDivisor * std::pow(10, _precision))
-				   / (_scalingMultiplier * _scalingBase) - _scalingOffset;
+				   / (static_cast<cip::CipLreal>(_scalingMultiplier) * _scalingBase) - _scalingOffset;
 		} else {
 			return engValue;
 		}
-- 
2.43.0


From 9ba88baf0f0bf5b3cedc5efb5b3d62698f4cdf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 27/27] fix: a truncated fault object reply is rejected

---
 src/vendor/ra/powerFlex525/DPIFaultObject.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
index e3f99cb..52aadba 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
@@ -54,6 +54,11 @@ namespace powerFlex525 {
 
             cip::CipUint flags;
             buffer >> flags;
+
+            if (!buffer.isValid()) {
+                throw std::runtime_error("Not enough data to read FULL_INFORMATION attribute");
+            }
+
             _fullInformation.isValidData = flags & VALID_DATA;
             _fullInformation.isRealTime = flags & REAL_TIME;
         } else {
-- 
2.43.0

