// A stand-in for the part of the AWS SDK that the s3 backend uses: an in-memory object store with paged listings,
// batched deletion and controllable request failures. No network is involved.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace Aws {

    typedef std::string String;
    typedef std::stringstream StringStream;
    typedef std::iostream IOStream;
    template<class T> using Vector = std::vector<T>;
    template<class T, class... A> std::shared_ptr<T> MakeShared(const char *, A &&... a) {return std::make_shared<T>(std::forward<A>(a)...);}
    template<class T> using UniquePtr = std::unique_ptr<T>;

    namespace Utils { namespace Logging {
        enum class LogLevel {Off, Fatal, Error, Warn, Info, Debug, Trace};
        struct LogSystemInterface {virtual ~LogSystemInterface() {}};
        struct ConsoleLogSystem : LogSystemInterface {ConsoleLogSystem(LogLevel) {}};
    } }

    struct LoggingOptions {
        Utils::Logging::LogLevel logLevel = Utils::Logging::LogLevel::Off;
        std::function<std::shared_ptr<Utils::Logging::LogSystemInterface>()> logger_create_fn;
    };
    struct SDKOptions {LoggingOptions loggingOptions;};
    inline void InitAPI(const SDKOptions &) {}
    inline void ShutdownAPI(const SDKOptions &) {}

    namespace Http {
        enum class Scheme {HTTP, HTTPS};
        enum class HttpResponseCode {REQUEST_NOT_MADE = -1, OK = 200, NO_CONTENT = 204, PARTIAL_CONTENT = 206, BAD_REQUEST = 400, FORBIDDEN = 403,
                                     NOT_FOUND = 404, CONFLICT = 409, INTERNAL_SERVER_ERROR = 500, SERVICE_UNAVAILABLE = 503};
    }

    namespace Auth {
        struct AWSCredentials {String a, s; AWSCredentials(const String & a_ = "", const String & s_ = "") : a(a_), s(s_) {}};
        struct AWSCredentialsProvider {virtual ~AWSCredentialsProvider() {}};
        struct AnonymousAWSCredentialsProvider : AWSCredentialsProvider {};
        struct SimpleAWSCredentialsProvider : AWSCredentialsProvider {
            SimpleAWSCredentialsProvider(const String &, const String &, const String & = "") {}
            SimpleAWSCredentialsProvider(const AWSCredentials &) {}
        };
        struct DefaultAWSCredentialsProviderChain : AWSCredentialsProvider {};
    }

    namespace Client {
        struct ClientConfigurationInitValues {bool shouldDisableIMDS = false;};
        template<class E> struct AWSError {
            E type{}; Http::HttpResponseCode code = Http::HttpResponseCode::OK; String name, message; bool retry = false;
            const E GetErrorType() const {return type;}
            Http::HttpResponseCode GetResponseCode() const {return code;}
            const String & GetMessage() const {return message;}
            const String & GetExceptionName() const {return name;}
            bool ShouldRetry() const {return retry;}
        };
    }

    namespace Utils {
        template<class R, class E> struct Outcome {
            bool ok = false; R result; E error;
            Outcome() {}
            Outcome(R && r) : ok(true), result(std::move(r)) {}
            Outcome(const E & e) : ok(false), error(e) {}
            bool IsSuccess() const {return ok;}
            const R & GetResult() const {return result;}
            R & GetResult() {return result;}
            R && GetResultWithOwnership() {return std::move(result);}
            const E & GetError() const {return error;}
        };
    }

namespace S3 {

    enum class S3Errors {UNKNOWN, ACCESS_DENIED, INTERNAL_FAILURE, SERVICE_UNAVAILABLE, SLOW_DOWN, NETWORK_CONNECTION, REQUEST_TIMEOUT, RESOURCE_NOT_FOUND,
                         NO_SUCH_KEY, NO_SUCH_BUCKET, BUCKET_ALREADY_EXISTS, BUCKET_ALREADY_OWNED_BY_YOU, INVALID_PARAMETER_VALUE, VALIDATION};
    typedef Client::AWSError<S3Errors> S3Error;

    struct S3ClientConfiguration {
        S3ClientConfiguration() {}
        S3ClientConfiguration(const Client::ClientConfigurationInitValues &) {}
        long connectTimeoutMs = 0, requestTimeoutMs = 0, maxConnections = 25;
        String region, endpointOverride;
        Http::Scheme scheme = Http::Scheme::HTTPS;
        bool useVirtualAddressing = true;
    };
    struct S3EndpointProvider {};

namespace Model {
    // request / result fields with the accessors that the SDK generates
    #define FAKE_FIELD(CLS, T, NAME) private: T NAME##_{}; bool NAME##Set_ = false; public: \
        const T & Get##NAME() const {return NAME##_;} bool NAME##HasBeenSet() const {return NAME##Set_;} \
        void Set##NAME(const T & v) {NAME##_ = v; NAME##Set_ = true;} CLS & With##NAME(const T & v) {Set##NAME(v); return *this;}
    #define FAKE_LIST(CLS, T, NAME, ONE) FAKE_FIELD(CLS, std::vector<T>, NAME) \
        CLS & Add##NAME(const T & v) {NAME##_.push_back(v); NAME##Set_ = true; return *this;}

    struct Object {FAKE_FIELD(Object, String, Key) FAKE_FIELD(Object, long long, Size) FAKE_FIELD(Object, String, ETag)};
    struct CommonPrefix {FAKE_FIELD(CommonPrefix, String, Prefix)};
    struct ObjectIdentifier {FAKE_FIELD(ObjectIdentifier, String, Key)};
    struct Delete {FAKE_LIST(Delete, ObjectIdentifier, Objects, 0) FAKE_FIELD(Delete, bool, Quiet)};
    struct DeletedObject {FAKE_FIELD(DeletedObject, String, Key)};
    struct Error {FAKE_FIELD(Error, String, Key) FAKE_FIELD(Error, String, Code) FAKE_FIELD(Error, String, Message)};

    struct ListObjectsV2Request {
        FAKE_FIELD(ListObjectsV2Request, String, Bucket) FAKE_FIELD(ListObjectsV2Request, String, Prefix) FAKE_FIELD(ListObjectsV2Request, String, Delimiter)
        FAKE_FIELD(ListObjectsV2Request, int, MaxKeys) FAKE_FIELD(ListObjectsV2Request, String, ContinuationToken) FAKE_FIELD(ListObjectsV2Request, String, StartAfter)
    };
    struct ListObjectsV2Result {
        FAKE_LIST(ListObjectsV2Result, Object, Contents, 0) FAKE_LIST(ListObjectsV2Result, CommonPrefix, CommonPrefixes, 0)
        FAKE_FIELD(ListObjectsV2Result, bool, IsTruncated) FAKE_FIELD(ListObjectsV2Result, String, NextContinuationToken) FAKE_FIELD(ListObjectsV2Result, int, KeyCount)
    };
    struct GetObjectRequest {FAKE_FIELD(GetObjectRequest, String, Bucket) FAKE_FIELD(GetObjectRequest, String, Key) FAKE_FIELD(GetObjectRequest, String, Range)};
    struct GetObjectResult {
        FAKE_FIELD(GetObjectResult, long long, ContentLength) FAKE_FIELD(GetObjectResult, String, ETag)
        std::shared_ptr<std::stringstream> body = std::make_shared<std::stringstream>();
        std::iostream & GetBody() const {return *body;}
    };
    struct PutObjectRequest {
        FAKE_FIELD(PutObjectRequest, String, Bucket) FAKE_FIELD(PutObjectRequest, String, Key) FAKE_FIELD(PutObjectRequest, long long, ContentLength)
        FAKE_FIELD(PutObjectRequest, String, ContentType)
        std::shared_ptr<std::iostream> body;
        void SetBody(const std::shared_ptr<std::iostream> & b) {body = b;}
    };
    struct PutObjectResult {FAKE_FIELD(PutObjectResult, String, ETag)};
    struct HeadObjectRequest {FAKE_FIELD(HeadObjectRequest, String, Bucket) FAKE_FIELD(HeadObjectRequest, String, Key)};
    struct HeadObjectResult {FAKE_FIELD(HeadObjectResult, long long, ContentLength) FAKE_FIELD(HeadObjectResult, String, ETag)};
    struct DeleteObjectRequest {FAKE_FIELD(DeleteObjectRequest, String, Bucket) FAKE_FIELD(DeleteObjectRequest, String, Key)};
    struct DeleteObjectResult {};
    struct DeleteObjectsRequest {FAKE_FIELD(DeleteObjectsRequest, String, Bucket) FAKE_FIELD(DeleteObjectsRequest, Model::Delete, Delete)};
    struct DeleteObjectsResult {FAKE_LIST(DeleteObjectsResult, DeletedObject, Deleted, 0) FAKE_LIST(DeleteObjectsResult, Error, Errors, 0)};
    struct CreateBucketRequest {FAKE_FIELD(CreateBucketRequest, String, Bucket)};
    struct CreateBucketResult {};

    typedef Utils::Outcome<ListObjectsV2Result, S3Error> ListObjectsV2Outcome;
    typedef Utils::Outcome<GetObjectResult, S3Error> GetObjectOutcome;
    typedef Utils::Outcome<PutObjectResult, S3Error> PutObjectOutcome;
    typedef Utils::Outcome<HeadObjectResult, S3Error> HeadObjectOutcome;
    typedef Utils::Outcome<DeleteObjectResult, S3Error> DeleteObjectOutcome;
    typedef Utils::Outcome<DeleteObjectsResult, S3Error> DeleteObjectsOutcome;
    typedef Utils::Outcome<CreateBucketResult, S3Error> CreateBucketOutcome;
}

    // the store, shared by all clients of the process
    struct FakeStore {
        enum Fault {None = -1, Internal = 0, Denied, Throttled, Network, Lost /* the request has its effect, the response does not arrive */,
                    Short /* the body of the response, or the list of deleted objects, is incomplete */, Faults};
        std::mutex m;
        std::map<std::string, std::map<std::string, std::string>> buckets;
        int pageSize = 1000;
        long requests = 0, faultAt = -1;
        int fault = None;
        bool hit = false;                   // the fault has happened (Short does not apply to all requests)
        std::string log;

        static FakeStore & get() {static FakeStore s; return s;}

        // which fault this request suffers
        int begin(const char * what, const std::string & key) {
            log += std::string(what) + " " + key + "\n";
            return requests++ == faultAt ? fault : None;
        }
        static bool fails(const int f) {return f >= Internal && f <= Network;}
        S3Error error(const int f) {
            hit = true;
            switch(f) {
                case Internal: return {S3Errors::INTERNAL_FAILURE, Http::HttpResponseCode::INTERNAL_SERVER_ERROR, "InternalError", "We encountered an internal error", true};
                case Denied: return {S3Errors::ACCESS_DENIED, Http::HttpResponseCode::FORBIDDEN, "AccessDenied", "Access Denied", false};
                case Throttled: return {S3Errors::SLOW_DOWN, Http::HttpResponseCode::SERVICE_UNAVAILABLE, "SlowDown", "Please reduce your request rate.", true};
                default: return {S3Errors::NETWORK_CONNECTION, Http::HttpResponseCode::REQUEST_NOT_MADE, "", "curlCode: 28, Timeout was reached", true};
            }
        }
        S3Error noKey() {return {S3Errors::NO_SUCH_KEY, Http::HttpResponseCode::NOT_FOUND, "NoSuchKey", "The specified key does not exist.", false};}
        S3Error noBucket() {return {S3Errors::NO_SUCH_BUCKET, Http::HttpResponseCode::NOT_FOUND, "NoSuchBucket", "The specified bucket does not exist", false};}
        S3Error head404() {return {S3Errors::RESOURCE_NOT_FOUND, Http::HttpResponseCode::NOT_FOUND, "", "No response body.", false};}
        S3Error invalid(const char * w) {return {S3Errors::INVALID_PARAMETER_VALUE, Http::HttpResponseCode::BAD_REQUEST, "InvalidRequest", w, false};}
    };

    class S3Client {
        static FakeStore & store() {return FakeStore::get();}
    public:
        S3Client() {}
        S3Client(const std::shared_ptr<Auth::AWSCredentialsProvider> &, const std::shared_ptr<S3EndpointProvider> &, const S3ClientConfiguration &) {}

        Model::GetObjectOutcome GetObject(const Model::GetObjectRequest & r) const {
            auto & s = store(); std::lock_guard<std::mutex> l(s.m);
            const int f = s.begin("GET", r.GetKey());
            if(s.fails(f) || f == FakeStore::Lost) return s.error(f == FakeStore::Lost ? FakeStore::Network : f);
            if(r.GetKey().empty()) return s.invalid("empty key");
            auto b = s.buckets.find(r.GetBucket());
            if(b == s.buckets.end()) return s.noBucket();
            auto it = b->second.find(r.GetKey());
            if(it == b->second.end()) return s.noKey();
            std::string body = it->second;
            if(!r.GetRange().empty()) {
                std::size_t from = 0, to = body.size();
                unsigned long long a = 0, e = 0;
                const int n = std::sscanf(r.GetRange().c_str(), "bytes=%llu-%llu", &a, &e);
                if(n >= 1 && a >= body.size()) return s.invalid("range");
                if(n >= 1) from = a;
                if(n == 2) to = std::min<std::size_t>(to, e + 1);
                if(n == 0 && std::sscanf(r.GetRange().c_str(), "bytes=-%llu", &e) == 1) from = body.size() - std::min<std::size_t>(e, body.size());
                body = body.substr(from, to - from);
            }
            Model::GetObjectResult res;
            res.SetContentLength(body.size());
            if(f == FakeStore::Short && body.size() > 0) {s.hit = true; body.resize(body.size() / 2);}
            res.body->write(body.data(), body.size());
            return res;
        }

        Model::PutObjectOutcome PutObject(const Model::PutObjectRequest & r) const {
            auto & s = store(); std::lock_guard<std::mutex> l(s.m);
            const int f = s.begin("PUT", r.GetKey());
            if(s.fails(f)) return s.error(f);
            if(r.GetKey().empty()) return s.invalid("empty key");
            auto b = s.buckets.find(r.GetBucket());
            if(b == s.buckets.end()) return s.noBucket();
            std::stringstream ss;
            if(r.body) ss << r.body->rdbuf();
            b->second[r.GetKey()] = ss.str();
            if(f == FakeStore::Lost) return s.error(FakeStore::Network);
            return Model::PutObjectResult();
        }

        Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest & r) const {
            auto & s = store(); std::lock_guard<std::mutex> l(s.m);
            const int f = s.begin("HEAD", r.GetKey());
            if(s.fails(f) || f == FakeStore::Lost) {     // (responses to HEAD have no body, so no message)
                auto e = s.error(f == FakeStore::Lost ? FakeStore::Network : f);
                e.message = "No response body.";
                return e;
            }
            auto b = s.buckets.find(r.GetBucket());
            if(r.GetKey().empty()) return s.invalid("empty key");
            if(b == s.buckets.end()) return s.head404();
            auto it = b->second.find(r.GetKey());
            if(it == b->second.end()) return s.head404();
            Model::HeadObjectResult res;
            res.SetContentLength(it->second.size());
            return res;
        }

        Model::DeleteObjectOutcome DeleteObject(const Model::DeleteObjectRequest & r) const {
            auto & s = store(); std::lock_guard<std::mutex> l(s.m);
            const int f = s.begin("DELETE", r.GetKey());
            if(s.fails(f)) return s.error(f);
            if(r.GetKey().empty()) return s.invalid("empty key");
            auto b = s.buckets.find(r.GetBucket());
            if(b == s.buckets.end()) return s.noBucket();
            b->second.erase(r.GetKey());
            if(f == FakeStore::Lost) return s.error(FakeStore::Network);
            return Model::DeleteObjectResult();
        }

        Model::DeleteObjectsOutcome DeleteObjects(const Model::DeleteObjectsRequest & r) const {
            auto & s = store(); std::lock_guard<std::mutex> l(s.m);
            const auto & objects = r.GetDelete().GetObjects();
            const int f = s.begin("DELETES", std::to_string(objects.size()));
            if(s.fails(f)) return s.error(f);
            auto b = s.buckets.find(r.GetBucket());
            if(b == s.buckets.end()) return s.noBucket();
            if(objects.empty() || objects.size() > 1000) return s.invalid("MalformedXML");
            Model::DeleteObjectsResult res;
            for(std::size_t i = 0; i < objects.size(); ++i) {
                if(f == FakeStore::Short && i == objects.size() / 2) {
                    s.hit = true;
                    res.AddErrors(Model::Error().WithKey(objects[i].GetKey()).WithCode("InternalError").WithMessage("We encountered an internal error"));
                    continue;
                }
                b->second.erase(objects[i].GetKey());
                if(!r.GetDelete().GetQuiet()) res.AddDeleted(Model::DeletedObject().WithKey(objects[i].GetKey()));
            }
            if(f == FakeStore::Lost) return s.error(FakeStore::Network);
            return res;
        }

        Model::ListObjectsV2Outcome ListObjectsV2(const Model::ListObjectsV2Request & r) const {
            auto & s = store(); std::lock_guard<std::mutex> l(s.m);
            const int f = s.begin("LIST", r.GetPrefix());
            if(s.fails(f) || f == FakeStore::Lost) return s.error(f == FakeStore::Lost ? FakeStore::Network : f);
            auto b = s.buckets.find(r.GetBucket());
            if(b == s.buckets.end()) return s.noBucket();
            int limit = s.pageSize;
            if(r.MaxKeysHasBeenSet()) limit = std::min(limit, std::max(0, r.GetMaxKeys()));
            const std::string & prefix = r.GetPrefix(), & delim = r.GetDelimiter();
            // the token is the last key or common prefix of the previous page
            std::string after = r.GetContinuationToken().empty() ? r.GetStartAfter() : r.GetContinuationToken().substr(1);
            const bool afterPrefix = !r.GetContinuationToken().empty() && r.GetContinuationToken()[0] == 'p';
            Model::ListObjectsV2Result res;
            res.SetIsTruncated(false);
            int n = 0;
            std::string last;
            bool lastIsPrefix = false;
            auto it = b->second.lower_bound(std::max(prefix, after));
            for(; it != b->second.end(); ++it) {
                const std::string & k = it->first;
                if(k.compare(0, prefix.size(), prefix) != 0) {
                    if(k > prefix) break;
                    continue;
                }
                if(!after.empty() && (afterPrefix ? k.compare(0, after.size(), after) == 0 : k <= after)) continue;
                std::string cp;
                if(!delim.empty()) {
                    const auto p = k.find(delim, prefix.size());
                    if(p != std::string::npos) cp = k.substr(0, p + delim.size());
                }
                if(!cp.empty() && lastIsPrefix && cp == last) continue;
                if(n == limit) {
                    if(limit > 0) {
                        res.SetIsTruncated(true);
                        res.SetNextContinuationToken((lastIsPrefix ? "p" : "k") + last);
                    }
                    break;
                }
                ++n;
                if(!cp.empty()) {
                    res.AddCommonPrefixes(Model::CommonPrefix().WithPrefix(cp));
                    last = cp; lastIsPrefix = true;
                } else {
                    res.AddContents(Model::Object().WithKey(k).WithSize(it->second.size()));
                    last = k; lastIsPrefix = false;
                }
            }
            res.SetKeyCount(n);
            return res;
        }

        Model::CreateBucketOutcome CreateBucket(const Model::CreateBucketRequest & r) const {
            auto & s = store(); std::lock_guard<std::mutex> l(s.m);
            const int f = s.begin("BUCKET", r.GetBucket());
            if(s.fails(f)) return s.error(f);
            s.buckets[r.GetBucket()];
            return Model::CreateBucketResult();
        }
    };
}
}
