package store

const (
	derRsaPrivate     = "MIICXgIBAAKBgQCoTjc4EDNKzeK3TmKTkZFBkB2jCFGq6IJbyiPBx0r6JsOp9v/wyEzkB5B+bSqV74wsEVyzVSEHpZvJgCVnMNZY+YPeq81/E8/YFnbtHYQwN1gYGCJt6W2pNHoA39mYjYFEFjsl5DKDLkPt8AgS+xSKn6dkvvZELue2LDxt0welWQIDAQABAoGAF25sOZ3nxi5LtgFvr+PAOUR7G8t4szaTj3vg5oV8Zr8m1m7QyxDXw5daAn/oQd+LwEbahQ0BADOKMM9qZadi795g/C1vDOIdizLHNkmcOql9soim1cYuXsDU6m/Mj5In1sCs9l6W/CKbgXBt9eR0OqRIDDSxDuMLCrLf7J3S71ECQQDP33t/HXxtgRUKl/OLGdDIpe3z6qLP0XBvnwEloxYXFuGgh+oPZ063VyEAQH73EsWmxs1OktxA/WUcwmp6GbFnAkEAz0WXoYrL9c/Kjo2TwUH2OSbFvZmXVTN7yyZTqA8/DCYfVLZKbxL05ZhmshGyswdLTIbK7rm5S1mZ9QdTp/P7PwJBAJc6IKAjlWgc5m/kh9uElm3CuVAgPP4vgjrSVIVLFkEJ9m9RMaivIYckLe/++99Hmt9v9eDZ2r61GiBIGCpoErUCQQCNVvVpUQ54VvPXda+171cJ7eiVu/C4Rt050K7nQU5K6Iwg5hWn3JNnJR+SegMTlfvA+YHUfI1gVn9n2VEwjG1dAkEAzZxY1Sjvwffo33tQLA0Bb4EKn5YP2AkLgx5BBplBef5hzFvONaOyjCCYDgExOM30wUrZZmI6s0yibsjEom4gTQ=="
	derRsaPublic      = "MIGfMA0GCSqGSIb3DQEBAQUAA4GNADCBiQKBgQCoTjc4EDNKzeK3TmKTkZFBkB2jCFGq6IJbyiPBx0r6JsOp9v/wyEzkB5B+bSqV74wsEVyzVSEHpZvJgCVnMNZY+YPeq81/E8/YFnbtHYQwN1gYGCJt6W2pNHoA39mYjYFEFjsl5DKDLkPt8AgS+xSKn6dkvvZELue2LDxt0welWQIDAQAB"
	derRsaPublicPkcs1 = "MIGJAoGBAKhONzgQM0rN4rdOYpORkUGQHaMIUaroglvKI8HHSvomw6n2//DITOQHkH5tKpXvjCwRXLNVIQelm8mAJWcw1lj5g96rzX8Tz9gWdu0dhDA3WBgYIm3pbak0egDf2ZiNgUQWOyXkMoMuQ+3wCBL7FIqfp2S+9kQu57YsPG3TB6VZAgMBAAE="
	derPkcs8          = "MIICeAIBADANBgkqhkiG9w0BAQEFAASCAmIwggJeAgEAAoGBAKhONzgQM0rN4rdOYpORkUGQHaMIUaroglvKI8HHSvomw6n2//DITOQHkH5tKpXvjCwRXLNVIQelm8mAJWcw1lj5g96rzX8Tz9gWdu0dhDA3WBgYIm3pbak0egDf2ZiNgUQWOyXkMoMuQ+3wCBL7FIqfp2S+9kQu57YsPG3TB6VZAgMBAAECgYAXbmw5nefGLku2AW+v48A5RHsby3izNpOPe+DmhXxmvybWbtDLENfDl1oCf+hB34vARtqFDQEAM4owz2plp2Lv3mD8LW8M4h2LMsc2SZw6qX2yiKbVxi5ewNTqb8yPkifWwKz2Xpb8IpuBcG315HQ6pEgMNLEO4wsKst/sndLvUQJBAM/fe38dfG2BFQqX84sZ0Mil7fPqos/RcG+fASWjFhcW4aCH6g9nTrdXIQBAfvcSxabGzU6S3ED9ZRzCanoZsWcCQQDPRZehisv1z8qOjZPBQfY5JsW9mZdVM3vLJlOoDz8MJh9UtkpvEvTlmGayEbKzB0tMhsruublLWZn1B1On8/s/AkEAlzogoCOVaBzmb+SH24SWbcK5UCA8/i+COtJUhUsWQQn2b1ExqK8hhyQt7/7730ea32/14NnavrUaIEgYKmgStQJBAI1W9WlRDnhW89d1r7XvVwnt6JW78LhG3TnQrudBTkrojCDmFafck2clH5J6AxOV+8D5gdR8jWBWf2fZUTCMbV0CQQDNnFjVKO/B9+jfe1AsDQFvgQqflg/YCQuDHkEGmUF5/mHMW841o7KMIJgOATE4zfTBStlmYjqzTKJuyMSibiBN"
	derEd25519Public  = "MCowBQYDK2VwAyEA6bAmUvrCrDQcuyeB3xPffEj6AIIX8rqa73sxH9LgIDw="
	derEcPublic       = "MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAExHWGG/QoXzhn3FnzUxQw4glaDIRJpd5/8aCFYGFn4JS+mxvZRPDXkEvdmbJgWMgjuAARWI3rYJT0e3RAcJgEDA=="
	derEcPrivate      = "MHcCAQEEIBT6WHmKBytfFUoQz4IPjoZEii9GKuqcYKa7PhL0o5J4oAoGCCqGSM49AwEHoUQDQgAExHWGG/QoXzhn3FnzUxQw4glaDIRJpd5/8aCFYGFn4JS+mxvZRPDXkEvdmbJgWMgjuAARWI3rYJT0e3RAcJgEDA=="
	derCert           = "MIIBAzCBq6ADAgECAgEBMAoGCCqGSM49BAMCMAwxCjAIBgNVBAMTAXgwHhcNNzAwMTAxMDAwMDAwWhcNMzgwMTE5MDMxNDA4WjAMMQowCAYDVQQDEwF4MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAExHWGG/QoXzhn3FnzUxQw4glaDIRJpd5/8aCFYGFn4JS+mxvZRPDXkEvdmbJgWMgjuAARWI3rYJT0e3RAcJgEDDAKBggqhkjOPQQDAgNHADBEAiB6VB/+hsUwe+AjysdW6HBD4F0YBGkbldHjmkfxJQ8m2AIgfTfJH6foz1MPcs/Wriw/7PB74IHvzR7rVTbNTg2fnlU="
)
