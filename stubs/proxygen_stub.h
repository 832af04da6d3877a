// Declaration-only stand-ins for the parts of proxygen/wangle the repository uses.
#pragma once
#include "folly_stub.h"
namespace proxygen {
enum class HTTPMethod { GET, POST, OPTIONS, DELETE, HEAD, CONNECT, CONNECT_UDP, PUT, TRACE, PATCH, SUB, PUB, UNSUB };
std::ostream& operator<<(std::ostream&, HTTPMethod);
enum class UpgradeProtocol { TCP };
enum ProxygenError { kErrorNone, kErrorMax };
const char* getErrorString(ProxygenError);
class HTTPMessage { public: std::optional<HTTPMethod> getMethod() const; const std::string& getMethodString() const; bool hasQueryParam(const std::string&) const; const std::string& getQueryParam(const std::string&) const; std::string getDecodedQueryParam(const std::string&) const; const std::string* getQueryParamPtr(const std::string&) const; const std::string& getPath() const; const std::string& getQueryString() const; const std::string& getURL() const; std::map<std::string, std::string> getQueryParams() const; };
class ResponseHandler { public: virtual ~ResponseHandler(); };
class RequestHandler { public: virtual ~RequestHandler(); virtual void setResponseHandler(ResponseHandler*) noexcept; virtual void onRequest(std::unique_ptr<HTTPMessage>) noexcept = 0; virtual void onBody(std::unique_ptr<folly::IOBuf>) noexcept = 0; virtual void onUpgrade(UpgradeProtocol) noexcept = 0; virtual void onEOM() noexcept = 0; virtual void requestComplete() noexcept = 0; virtual void onError(ProxygenError) noexcept = 0; virtual void onEgressPaused() noexcept; virtual void onEgressResumed() noexcept; protected: ResponseHandler* downstream_{nullptr}; };
class RequestHandlerFactory { public: virtual ~RequestHandlerFactory(); virtual void onServerStart(folly::EventBase*) noexcept = 0; virtual void onServerStop() noexcept = 0; virtual RequestHandler* onRequest(RequestHandler*, HTTPMessage*) noexcept = 0; };
class ResponseBuilder { public: explicit ResponseBuilder(ResponseHandler*); ResponseBuilder& status(uint16_t, const std::string&); template <class T> ResponseBuilder& body(T&&); ResponseBuilder& header(const std::string&, const std::string&); void send(); void sendWithEOM(); ResponseBuilder& closeConnection(); ResponseBuilder& rejectUpgradeRequest(); };
class RequestHandlerChain { public: template <class T, class... A> RequestHandlerChain& addThen(A&&...); template <class T> RequestHandlerChain& addThen(std::unique_ptr<T>); std::vector<std::unique_ptr<RequestHandlerFactory>> build(); };
struct HTTPServerOptions { size_t threads; std::chrono::milliseconds idleTimeout; bool enableContentCompression; bool h2cEnabled; std::vector<std::unique_ptr<RequestHandlerFactory>> handlerFactories; std::vector<int> shutdownOn; };
class HTTPServer { public: enum class Protocol { SPDY, HTTP, HTTP2 }; struct IPConfig { IPConfig(folly::SocketAddress, Protocol); folly::SocketAddress address; Protocol protocol; }; explicit HTTPServer(HTTPServerOptions); ~HTTPServer(); void bind(std::vector<IPConfig>&); void start(std::function<void()> = nullptr, std::function<void(std::exception_ptr)> = nullptr); void stop(); struct AddressInfo { folly::SocketAddress address; Protocol protocol; }; std::vector<AddressInfo> addresses() const; };
std::string md5Encode(folly::ByteRange); std::string base64Encode(folly::ByteRange);
}
