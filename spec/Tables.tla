------------------------------- MODULE Tables -------------------------------
(* Registered words.  Written by tools/mktables.py from Python's registry. *)
EXTENDS Bytes

(* code, name of the constant, accepted reason phrases *)
StatusTable == <<
  <<100, <<67,79,78,84,73,78,85,69>>, {<<67,111,110,116,105,110,117,101>>}>>, \* Continue
  <<101, <<83,87,73,84,67,72,73,78,71,95,80,82,79,84,79,67,79,76,83>>, {<<83,119,105,116,99,104,105,110,103,32,80,114,111,116,111,99,111,108,115>>}>>, \* Switching Protocols
  <<102, <<80,82,79,67,69,83,83,73,78,71>>, {<<80,114,111,99,101,115,115,105,110,103>>}>>, \* Processing
  <<200, <<79,75>>, {<<79,75>>}>>, \* OK
  <<201, <<67,82,69,65,84,69,68>>, {<<67,114,101,97,116,101,100>>}>>, \* Created
  <<202, <<65,67,67,69,80,84,69,68>>, {<<65,99,99,101,112,116,101,100>>}>>, \* Accepted
  <<203, <<78,79,78,95,65,85,84,72,79,82,73,84,65,84,73,86,69,95,73,78,70,79,82,77,65,84,73,79,78>>, {<<78,111,110,32,65,117,116,104,111,114,105,116,97,116,105,118,101,32,73,110,102,111,114,109,97,116,105,111,110>>, <<78,111,110,45,65,117,116,104,111,114,105,116,97,116,105,118,101,32,73,110,102,111,114,109,97,116,105,111,110>>}>>, \* Non-Authoritative Information
  <<204, <<78,79,95,67,79,78,84,69,78,84>>, {<<78,111,32,67,111,110,116,101,110,116>>}>>, \* No Content
  <<205, <<82,69,83,69,84,95,67,79,78,84,69,78,84>>, {<<82,101,115,101,116,32,67,111,110,116,101,110,116>>}>>, \* Reset Content
  <<206, <<80,65,82,84,73,65,76,95,67,79,78,84,69,78,84>>, {<<80,97,114,116,105,97,108,32,67,111,110,116,101,110,116>>}>>, \* Partial Content
  <<207, <<77,85,76,84,73,95,83,84,65,84,85,83>>, {<<77,117,108,116,105,45,83,116,97,116,117,115>>}>>, \* Multi-Status
  <<208, <<65,76,82,69,65,68,89,95,82,69,80,79,82,84,69,68>>, {<<65,108,114,101,97,100,121,32,82,101,112,111,114,116,101,100>>}>>, \* Already Reported
  <<226, <<73,77,95,85,83,69,68>>, {<<73,77,32,85,115,101,100>>}>>, \* IM Used
  <<300, <<77,85,76,84,73,80,76,69,95,67,72,79,73,67,69,83>>, {<<77,117,108,116,105,112,108,101,32,67,104,111,105,99,101,115>>}>>, \* Multiple Choices
  <<301, <<77,79,86,69,68,95,80,69,82,77,65,78,69,78,84,76,89>>, {<<77,111,118,101,100,32,80,101,114,109,97,110,101,110,116,108,121>>}>>, \* Moved Permanently
  <<302, <<70,79,85,78,68>>, {<<70,111,117,110,100>>}>>, \* Found
  <<303, <<83,69,69,95,79,84,72,69,82>>, {<<83,101,101,32,79,116,104,101,114>>}>>, \* See Other
  <<304, <<78,79,84,95,77,79,68,73,70,73,69,68>>, {<<78,111,116,32,77,111,100,105,102,105,101,100>>}>>, \* Not Modified
  <<305, <<85,83,69,95,80,82,79,88,89>>, {<<85,115,101,32,80,114,111,120,121>>}>>, \* Use Proxy
  <<307, <<84,69,77,80,79,82,65,82,89,95,82,69,68,73,82,69,67,84>>, {<<84,101,109,112,111,114,97,114,121,32,82,101,100,105,114,101,99,116>>}>>, \* Temporary Redirect
  <<308, <<80,69,82,77,65,78,69,78,84,95,82,69,68,73,82,69,67,84>>, {<<80,101,114,109,97,110,101,110,116,32,82,101,100,105,114,101,99,116>>}>>, \* Permanent Redirect
  <<400, <<66,65,68,95,82,69,81,85,69,83,84>>, {<<66,97,100,32,82,101,113,117,101,115,116>>}>>, \* Bad Request
  <<401, <<85,78,65,85,84,72,79,82,73,90,69,68>>, {<<85,110,97,117,116,104,111,114,105,122,101,100>>}>>, \* Unauthorized
  <<402, <<80,65,89,77,69,78,84,95,82,69,81,85,73,82,69,68>>, {<<80,97,121,109,101,110,116,32,82,101,113,117,105,114,101,100>>}>>, \* Payment Required
  <<403, <<70,79,82,66,73,68,68,69,78>>, {<<70,111,114,98,105,100,100,101,110>>}>>, \* Forbidden
  <<404, <<78,79,84,95,70,79,85,78,68>>, {<<78,111,116,32,70,111,117,110,100>>}>>, \* Not Found
  <<405, <<77,69,84,72,79,68,95,78,79,84,95,65,76,76,79,87,69,68>>, {<<77,101,116,104,111,100,32,78,111,116,32,65,108,108,111,119,101,100>>}>>, \* Method Not Allowed
  <<406, <<78,79,84,95,65,67,67,69,80,84,65,66,76,69>>, {<<78,111,116,32,65,99,99,101,112,116,97,98,108,101>>}>>, \* Not Acceptable
  <<407, <<80,82,79,88,89,95,65,85,84,72,69,78,84,73,67,65,84,73,79,78,95,82,69,81,85,73,82,69,68>>, {<<80,114,111,120,121,32,65,117,116,104,101,110,116,105,99,97,116,105,111,110,32,82,101,113,117,105,114,101,100>>}>>, \* Proxy Authentication Required
  <<408, <<82,69,81,85,69,83,84,95,84,73,77,69,79,85,84>>, {<<82,101,113,117,101,115,116,32,84,105,109,101,111,117,116>>}>>, \* Request Timeout
  <<409, <<67,79,78,70,76,73,67,84>>, {<<67,111,110,102,108,105,99,116>>}>>, \* Conflict
  <<410, <<71,79,78,69>>, {<<71,111,110,101>>}>>, \* Gone
  <<411, <<76,69,78,71,84,72,95,82,69,81,85,73,82,69,68>>, {<<76,101,110,103,116,104,32,82,101,113,117,105,114,101,100>>}>>, \* Length Required
  <<412, <<80,82,69,67,79,78,68,73,84,73,79,78,95,70,65,73,76,69,68>>, {<<80,114,101,99,111,110,100,105,116,105,111,110,32,70,97,105,108,101,100>>}>>, \* Precondition Failed
  <<413, <<80,65,89,76,79,65,68,95,84,79,79,95,76,65,82,71,69>>, {<<67,111,110,116,101,110,116,32,84,111,111,32,76,97,114,103,101>>, <<80,97,121,108,111,97,100,32,84,111,111,32,76,97,114,103,101>>, <<82,101,113,117,101,115,116,32,69,110,116,105,116,121,32,84,111,111,32,76,97,114,103,101>>}>>, \* Request Entity Too Large
  <<414, <<85,82,73,95,84,79,79,95,76,79,78,71>>, {<<82,101,113,117,101,115,116,45,85,82,73,32,84,111,111,32,76,111,110,103>>, <<85,82,73,32,84,111,111,32,76,111,110,103>>}>>, \* Request-URI Too Long
  <<415, <<85,78,83,85,80,80,79,82,84,69,68,95,77,69,68,73,65,95,84,89,80,69>>, {<<85,110,115,117,112,112,111,114,116,101,100,32,77,101,100,105,97,32,84,121,112,101>>}>>, \* Unsupported Media Type
  <<416, <<82,65,78,71,69,95,78,79,84,95,83,65,84,73,83,70,73,65,66,76,69>>, {<<82,97,110,103,101,32,78,111,116,32,83,97,116,105,115,102,105,97,98,108,101>>, <<82,101,113,117,101,115,116,101,100,32,82,97,110,103,101,32,78,111,116,32,83,97,116,105,115,102,105,97,98,108,101>>}>>, \* Requested Range Not Satisfiable
  <<417, <<69,88,80,69,67,84,65,84,73,79,78,95,70,65,73,76,69,68>>, {<<69,120,112,101,99,116,97,116,105,111,110,32,70,97,105,108,101,100>>}>>, \* Expectation Failed
  <<418, <<73,77,95,65,95,84,69,65,80,79,84>>, {<<73,39,109,32,97,32,84,101,97,112,111,116>>, <<73,39,109,32,97,32,116,101,97,112,111,116>>}>>, \* I'm a Teapot
  <<421, <<77,73,83,68,73,82,69,67,84,69,68,95,82,69,81,85,69,83,84>>, {<<77,105,115,100,105,114,101,99,116,101,100,32,82,101,113,117,101,115,116>>}>>, \* Misdirected Request
  <<422, <<85,78,80,82,79,67,69,83,83,65,66,76,69,95,69,78,84,73,84,89>>, {<<85,110,112,114,111,99,101,115,115,97,98,108,101,32,67,111,110,116,101,110,116>>, <<85,110,112,114,111,99,101,115,115,97,98,108,101,32,69,110,116,105,116,121>>}>>, \* Unprocessable Entity
  <<423, <<76,79,67,75,69,68>>, {<<76,111,99,107,101,100>>}>>, \* Locked
  <<424, <<70,65,73,76,69,68,95,68,69,80,69,78,68,69,78,67,89>>, {<<70,97,105,108,101,100,32,68,101,112,101,110,100,101,110,99,121>>}>>, \* Failed Dependency
  <<426, <<85,80,71,82,65,68,69,95,82,69,81,85,73,82,69,68>>, {<<85,112,103,114,97,100,101,32,82,101,113,117,105,114,101,100>>}>>, \* Upgrade Required
  <<428, <<80,82,69,67,79,78,68,73,84,73,79,78,95,82,69,81,85,73,82,69,68>>, {<<80,114,101,99,111,110,100,105,116,105,111,110,32,82,101,113,117,105,114,101,100>>}>>, \* Precondition Required
  <<429, <<84,79,79,95,77,65,78,89,95,82,69,81,85,69,83,84,83>>, {<<84,111,111,32,77,97,110,121,32,82,101,113,117,101,115,116,115>>}>>, \* Too Many Requests
  <<431, <<82,69,81,85,69,83,84,95,72,69,65,68,69,82,95,70,73,69,76,68,83,95,84,79,79,95,76,65,82,71,69>>, {<<82,101,113,117,101,115,116,32,72,101,97,100,101,114,32,70,105,101,108,100,115,32,84,111,111,32,76,97,114,103,101>>}>>, \* Request Header Fields Too Large
  <<451, <<85,78,65,86,65,73,76,65,66,76,69,95,70,79,82,95,76,69,71,65,76,95,82,69,65,83,79,78,83>>, {<<85,110,97,118,97,105,108,97,98,108,101,32,70,111,114,32,76,101,103,97,108,32,82,101,97,115,111,110,115>>}>>, \* Unavailable For Legal Reasons
  <<500, <<73,78,84,69,82,78,65,76,95,83,69,82,86,69,82,95,69,82,82,79,82>>, {<<73,110,116,101,114,110,97,108,32,83,101,114,118,101,114,32,69,114,114,111,114>>}>>, \* Internal Server Error
  <<501, <<78,79,84,95,73,77,80,76,69,77,69,78,84,69,68>>, {<<78,111,116,32,73,109,112,108,101,109,101,110,116,101,100>>}>>, \* Not Implemented
  <<502, <<66,65,68,95,71,65,84,69,87,65,89>>, {<<66,97,100,32,71,97,116,101,119,97,121>>}>>, \* Bad Gateway
  <<503, <<83,69,82,86,73,67,69,95,85,78,65,86,65,73,76,65,66,76,69>>, {<<83,101,114,118,105,99,101,32,85,110,97,118,97,105,108,97,98,108,101>>}>>, \* Service Unavailable
  <<504, <<71,65,84,69,87,65,89,95,84,73,77,69,79,85,84>>, {<<71,97,116,101,119,97,121,32,84,105,109,101,111,117,116>>}>>, \* Gateway Timeout
  <<505, <<72,84,84,80,95,86,69,82,83,73,79,78,95,78,79,84,95,83,85,80,80,79,82,84,69,68>>, {<<72,84,84,80,32,86,101,114,115,105,111,110,32,78,111,116,32,83,117,112,112,111,114,116,101,100>>}>>, \* HTTP Version Not Supported
  <<506, <<86,65,82,73,65,78,84,95,65,76,83,79,95,78,69,71,79,84,73,65,84,69,83>>, {<<86,97,114,105,97,110,116,32,65,108,115,111,32,78,101,103,111,116,105,97,116,101,115>>}>>, \* Variant Also Negotiates
  <<507, <<73,78,83,85,70,70,73,67,73,69,78,84,95,83,84,79,82,65,71,69>>, {<<73,110,115,117,102,102,105,99,105,101,110,116,32,83,116,111,114,97,103,101>>}>>, \* Insufficient Storage
  <<508, <<76,79,79,80,95,68,69,84,69,67,84,69,68>>, {<<76,111,111,112,32,68,101,116,101,99,116,101,100>>}>>, \* Loop Detected
  <<510, <<78,79,84,95,69,88,84,69,78,68,69,68>>, {<<78,111,116,32,69,120,116,101,110,100,101,100>>}>>, \* Not Extended
  <<511, <<78,69,84,87,79,82,75,95,65,85,84,72,69,78,84,73,67,65,84,73,79,78,95,82,69,81,85,73,82,69,68>>, {<<78,101,116,119,111,114,107,32,65,117,116,104,101,110,116,105,99,97,116,105,111,110,32,82,101,113,117,105,114,101,100>>}>> \* Network Authentication Required
>>

MethodWords == {<<79,80,84,73,79,78,83>>, <<71,69,84>>, <<80,79,83,84>>, <<80,85,84>>, <<68,69,76,69,84,69>>, <<72,69,65,68>>, <<84,82,65,67,69>>, <<67,79,78,78,69,67,84>>, <<80,65,84,67,72>>}
(* requests with these methods carry no content; responses to these carry none *)
NoContent == {<<71,69,84>>, <<72,69,65,68>>, <<79,80,84,73,79,78,83>>, <<67,79,78,78,69,67,84>>}
NoAnswer == {<<72,69,65,68>>, <<79,80,84,73,79,78,83>>, <<67,79,78,78,69,67,84>>}
VersionWords == <<<<<<72,84,84,80,49,48>>, <<72,84,84,80,47,49,46,48>>>>, <<<<72,84,84,80,49,49>>, <<72,84,84,80,47,49,46,49>>>>, <<<<72,84,84,80,50>>, <<72,84,84,80,47,50>>>>, <<<<72,84,84,80,51>>, <<72,84,84,80,47,51>>>>>>
SchemeWords == <<<<104,116,116,112>>, <<104,116,116,112,115>>, <<119,115>>, <<119,115,115>>, <<102,116,112>>>>
NoneWord == <<78,111,110,101>>
NoneName == <<78,79,78,69>>

(* HTTP/2 error codes from 0: name and description *)
ReasonTable == <<
  <<<<78,79,95,69,82,82,79,82>>, <<110,111,116,32,97,32,114,101,115,117,108,116,32,111,102,32,97,110,32,101,114,114,111,114>>>>, \* NO_ERROR
  <<<<80,82,79,84,79,67,79,76,95,69,82,82,79,82>>, <<117,110,115,112,101,99,105,102,105,99,32,112,114,111,116,111,99,111,108,32,101,114,114,111,114,32,100,101,116,101,99,116,101,100>>>>, \* PROTOCOL_ERROR
  <<<<73,78,84,69,82,78,65,76,95,69,82,82,79,82>>, <<117,110,101,120,112,101,99,116,101,100,32,105,110,116,101,114,110,97,108,32,101,114,114,111,114,32,101,110,99,111,117,110,116,101,114,101,100>>>>, \* INTERNAL_ERROR
  <<<<70,76,79,87,95,67,79,78,84,82,79,76,95,69,82,82,79,82>>, <<102,108,111,119,45,99,111,110,116,114,111,108,32,112,114,111,116,111,99,111,108,32,118,105,111,108,97,116,101,100>>>>, \* FLOW_CONTROL_ERROR
  <<<<83,69,84,84,73,78,71,83,95,84,73,77,69,79,85,84>>, <<115,101,116,116,105,110,103,115,32,65,67,75,32,110,111,116,32,114,101,99,101,105,118,101,100,32,105,110,32,116,105,109,101,108,121,32,109,97,110,110,101,114>>>>, \* SETTINGS_TIMEOUT
  <<<<83,84,82,69,65,77,95,67,76,79,83,69,68>>, <<114,101,99,101,105,118,101,100,32,102,114,97,109,101,32,119,104,101,110,32,115,116,114,101,97,109,32,104,97,108,102,45,99,108,111,115,101,100>>>>, \* STREAM_CLOSED
  <<<<70,82,65,77,69,95,83,73,90,69,95,69,82,82,79,82>>, <<102,114,97,109,101,32,119,105,116,104,32,105,110,118,97,108,105,100,32,115,105,122,101>>>>, \* FRAME_SIZE_ERROR
  <<<<82,69,70,85,83,69,68,95,83,84,82,69,65,77>>, <<114,101,102,117,115,101,100,32,115,116,114,101,97,109,32,98,101,102,111,114,101,32,112,114,111,99,101,115,115,105,110,103,32,97,110,121,32,97,112,112,108,105,99,97,116,105,111,110,32,108,111,103,105,99>>>>, \* REFUSED_STREAM
  <<<<67,65,78,67,69,76>>, <<115,116,114,101,97,109,32,110,111,32,108,111,110,103,101,114,32,110,101,101,100,101,100>>>>, \* CANCEL
  <<<<67,79,77,80,82,69,83,83,73,79,78,95,69,82,82,79,82>>, <<117,110,97,98,108,101,32,116,111,32,109,97,105,110,116,97,105,110,32,116,104,101,32,104,101,97,100,101,114,32,99,111,109,112,114,101,115,115,105,111,110,32,99,111,110,116,101,120,116>>>>, \* COMPRESSION_ERROR
  <<<<67,79,78,78,69,67,84,95,69,82,82,79,82>>, <<99,111,110,110,101,99,116,105,111,110,32,101,115,116,97,98,108,105,115,104,101,100,32,105,110,32,114,101,115,112,111,110,115,101,32,116,111,32,97,32,67,79,78,78,69,67,84,32,114,101,113,117,101,115,116,32,119,97,115,32,114,101,115,101,116,32,111,114,32,97,98,110,111,114,109,97,108,108,121,32,99,108,111,115,101,100>>>>, \* CONNECT_ERROR
  <<<<69,78,72,65,78,67,69,95,89,79,85,82,95,67,65,76,77>>, <<100,101,116,101,99,116,101,100,32,101,120,99,101,115,115,105,118,101,32,108,111,97,100,32,103,101,110,101,114,97,116,105,110,103,32,98,101,104,97,118,105,111,114>>>>, \* ENHANCE_YOUR_CALM
  <<<<73,78,65,68,69,81,85,65,84,69,95,83,69,67,85,82,73,84,89>>, <<115,101,99,117,114,105,116,121,32,112,114,111,112,101,114,116,105,101,115,32,100,111,32,110,111,116,32,109,101,101,116,32,109,105,110,105,109,117,109,32,114,101,113,117,105,114,101,109,101,110,116,115>>>>, \* INADEQUATE_SECURITY
  <<<<72,84,84,80,95,49,95,49,95,82,69,81,85,73,82,69,68>>, <<101,110,100,112,111,105,110,116,32,114,101,113,117,105,114,101,115,32,72,84,84,80,47,49,46,49>>>> \* HTTP_1_1_REQUIRED
>>

FieldWords == <<
  <<97,99,99,101,112,116>>, \* accept
  <<97,99,99,101,112,116,45,99,104,97,114,115,101,116>>, \* accept-charset
  <<97,99,99,101,112,116,45,101,110,99,111,100,105,110,103>>, \* accept-encoding
  <<97,99,99,101,112,116,45,108,97,110,103,117,97,103,101>>, \* accept-language
  <<97,99,99,101,112,116,45,114,97,110,103,101,115>>, \* accept-ranges
  <<97,99,99,101,115,115,45,99,111,110,116,114,111,108,45,97,108,108,111,119,45,99,114,101,100,101,110,116,105,97,108,115>>, \* access-control-allow-credentials
  <<97,99,99,101,115,115,45,99,111,110,116,114,111,108,45,97,108,108,111,119,45,104,101,97,100,101,114,115>>, \* access-control-allow-headers
  <<97,99,99,101,115,115,45,99,111,110,116,114,111,108,45,97,108,108,111,119,45,109,101,116,104,111,100,115>>, \* access-control-allow-methods
  <<97,99,99,101,115,115,45,99,111,110,116,114,111,108,45,97,108,108,111,119,45,111,114,105,103,105,110>>, \* access-control-allow-origin
  <<97,99,99,101,115,115,45,99,111,110,116,114,111,108,45,101,120,112,111,115,101,45,104,101,97,100,101,114,115>>, \* access-control-expose-headers
  <<97,99,99,101,115,115,45,99,111,110,116,114,111,108,45,109,97,120,45,97,103,101>>, \* access-control-max-age
  <<97,99,99,101,115,115,45,99,111,110,116,114,111,108,45,114,101,113,117,101,115,116,45,104,101,97,100,101,114,115>>, \* access-control-request-headers
  <<97,99,99,101,115,115,45,99,111,110,116,114,111,108,45,114,101,113,117,101,115,116,45,109,101,116,104,111,100>>, \* access-control-request-method
  <<97,103,101>>, \* age
  <<97,108,108,111,119>>, \* allow
  <<97,108,116,45,115,118,99>>, \* alt-svc
  <<97,117,116,104,111,114,105,122,97,116,105,111,110>>, \* authorization
  <<99,97,99,104,101,45,99,111,110,116,114,111,108>>, \* cache-control
  <<99,97,99,104,101,45,115,116,97,116,117,115>>, \* cache-status
  <<99,100,110,45,99,97,99,104,101,45,99,111,110,116,114,111,108>>, \* cdn-cache-control
  <<99,111,110,110,101,99,116,105,111,110>>, \* connection
  <<99,111,110,116,101,110,116,45,100,105,115,112,111,115,105,116,105,111,110>>, \* content-disposition
  <<99,111,110,116,101,110,116,45,101,110,99,111,100,105,110,103>>, \* content-encoding
  <<99,111,110,116,101,110,116,45,108,97,110,103,117,97,103,101>>, \* content-language
  <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>, \* content-length
  <<99,111,110,116,101,110,116,45,108,111,99,97,116,105,111,110>>, \* content-location
  <<99,111,110,116,101,110,116,45,114,97,110,103,101>>, \* content-range
  <<99,111,110,116,101,110,116,45,115,101,99,117,114,105,116,121,45,112,111,108,105,99,121>>, \* content-security-policy
  <<99,111,110,116,101,110,116,45,115,101,99,117,114,105,116,121,45,112,111,108,105,99,121,45,114,101,112,111,114,116,45,111,110,108,121>>, \* content-security-policy-report-only
  <<99,111,110,116,101,110,116,45,116,121,112,101>>, \* content-type
  <<99,111,111,107,105,101>>, \* cookie
  <<100,110,116>>, \* dnt
  <<100,97,116,101>>, \* date
  <<101,116,97,103>>, \* etag
  <<101,120,112,101,99,116>>, \* expect
  <<101,120,112,105,114,101,115>>, \* expires
  <<102,111,114,119,97,114,100,101,100>>, \* forwarded
  <<102,114,111,109>>, \* from
  <<104,111,115,116>>, \* host
  <<105,102,45,109,97,116,99,104>>, \* if-match
  <<105,102,45,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>, \* if-modified-since
  <<105,102,45,110,111,110,101,45,109,97,116,99,104>>, \* if-none-match
  <<105,102,45,114,97,110,103,101>>, \* if-range
  <<105,102,45,117,110,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>, \* if-unmodified-since
  <<108,97,115,116,45,109,111,100,105,102,105,101,100>>, \* last-modified
  <<108,105,110,107>>, \* link
  <<108,111,99,97,116,105,111,110>>, \* location
  <<109,97,120,45,102,111,114,119,97,114,100,115>>, \* max-forwards
  <<111,114,105,103,105,110>>, \* origin
  <<112,114,97,103,109,97>>, \* pragma
  <<112,114,111,120,121,45,97,117,116,104,101,110,116,105,99,97,116,101>>, \* proxy-authenticate
  <<112,114,111,120,121,45,97,117,116,104,111,114,105,122,97,116,105,111,110>>, \* proxy-authorization
  <<112,117,98,108,105,99,45,107,101,121,45,112,105,110,115>>, \* public-key-pins
  <<112,117,98,108,105,99,45,107,101,121,45,112,105,110,115,45,114,101,112,111,114,116,45,111,110,108,121>>, \* public-key-pins-report-only
  <<114,97,110,103,101>>, \* range
  <<114,101,102,101,114,101,114>>, \* referer
  <<114,101,102,101,114,114,101,114,45,112,111,108,105,99,121>>, \* referrer-policy
  <<114,101,102,114,101,115,104>>, \* refresh
  <<114,101,116,114,121,45,97,102,116,101,114>>, \* retry-after
  <<115,101,99,45,119,101,98,115,111,99,107,101,116,45,97,99,99,101,112,116>>, \* sec-websocket-accept
  <<115,101,99,45,119,101,98,115,111,99,107,101,116,45,101,120,116,101,110,115,105,111,110,115>>, \* sec-websocket-extensions
  <<115,101,99,45,119,101,98,115,111,99,107,101,116,45,107,101,121>>, \* sec-websocket-key
  <<115,101,99,45,119,101,98,115,111,99,107,101,116,45,112,114,111,116,111,99,111,108>>, \* sec-websocket-protocol
  <<115,101,99,45,119,101,98,115,111,99,107,101,116,45,118,101,114,115,105,111,110>>, \* sec-websocket-version
  <<115,101,114,118,101,114>>, \* server
  <<115,101,116,45,99,111,111,107,105,101>>, \* set-cookie
  <<115,116,114,105,99,116,45,116,114,97,110,115,112,111,114,116,45,115,101,99,117,114,105,116,121>>, \* strict-transport-security
  <<116,101>>, \* te
  <<116,114,97,105,108,101,114>>, \* trailer
  <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>, \* transfer-encoding
  <<117,115,101,114,45,97,103,101,110,116>>, \* user-agent
  <<117,112,103,114,97,100,101>>, \* upgrade
  <<117,112,103,114,97,100,101,45,105,110,115,101,99,117,114,101,45,114,101,113,117,101,115,116,115>>, \* upgrade-insecure-requests
  <<118,97,114,121>>, \* vary
  <<118,105,97>>, \* via
  <<119,97,114,110,105,110,103>>, \* warning
  <<119,119,119,45,97,117,116,104,101,110,116,105,99,97,116,101>>, \* www-authenticate
  <<120,45,99,111,110,116,101,110,116,45,116,121,112,101,45,111,112,116,105,111,110,115>>, \* x-content-type-options
  <<120,45,100,110,115,45,112,114,101,102,101,116,99,104,45,99,111,110,116,114,111,108>>, \* x-dns-prefetch-control
  <<120,45,102,114,97,109,101,45,111,112,116,105,111,110,115>>, \* x-frame-options
  <<120,45,120,115,115,45,112,114,111,116,101,99,116,105,111,110>> \* x-xss-protection
>>
=============================================================================
