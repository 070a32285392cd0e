//! Seed scripts covering the whole grammar (shared by C01 and C02).
pub const CORE: &[&str] = &[
    "keep;",
    "if header :is \"a\" [\"b\", \"c\"] { stop; } elsif true {} else { discard; }",
    "if allof(true, not anyof(false, not true)) { keep; }",
    "if size :over 10K { stop; } if not size :under 2M { keep; }",
    "/* a */ # b\r\nkeep;",
    "fileinto text:\r\na\r\n..b\r\n.\r\n;",
    "reject text: # c\na${v}\n.\n;",
    "set :lower \"v\" \"a${v}${1}\\\"\";",
    "require [\"encoded-character\"]; keep :flags \"${hex:24 41}${unicode:41}\";",
    "while string \"a\" \"b\" { if true { continue; } break; }",
    "foreverypart :name \"a\" { foreverypart { break :name \"a\"; } }",
];
pub const ACTIONS: &[&str] = &[
    "fileinto :copy :create :flags [\"\\\\Seen\"] \"x\";",
    "fileinto :specialuse \"\\\\Junk\" :mailboxid \"M1\" \"x\";",
    "redirect :copy :notify \"SUCCESS,DELAY\" :ret \"FULL\" \"a@b.c\";",
    "redirect :bymode \"return\" :bytrace :bytimerelative 60 \"a@b.c\";",
    "redirect :bytimeabsolute \"2024-01-01T00:00:00Z\" :list \"l\";",
    "vacation :days 3 :subject \"s\" :from \"f@g.h\" :addresses [\"i\"] :handle \"j\" \"k\";",
    "vacation :seconds 9 :mime :fcc \"z\" :create :flags \"f\" \"k\";",
    "notify :from \"a@b.c\" :importance \"1\" :options [\"a=b\"] :message \"m\" \"mailto:x@y.z\";",
    "notify :fcc \"q\" :specialuse \"u\" :mailboxid \"i\" \"mailto:x@y.z?subject=a%20b\";",
    "addheader :last \"X-A\" \"v\"; deleteheader :index 1 :last :contains \"X-A\" [\"v\"];",
    "replace :mime :subject \"s\" :from \"f\" \"text\"; enclose :subject \"s\" :headers [\"a: b\"] \"t\";",
    "foreverypart { extracttext :first 9 :upper \"v\"; }",
    "include :global :once :optional \"s\"; return;",
    "global [\"a\", \"b\"]; set \"a\" \"${global.b}\";",
    "addflag \"v\" [\"a\", \"b\"]; removeflag \"c\"; setflag [\"d\"];",
    "convert \"image/tiff\" \"image/jpeg\" [\"pix-x=3\"]; ereject \"r\"; error \"e\";",
    "set :replace \"a\" \"b\" :length :quotewildcard :encodeurl :local \"v\" \"c\";",
    "if string :matches \"a\" \"*\" { if string :matches \"${1}\" \"?\" { deleteheader :matches \"X\" \"${1}\"; keep; } stop; }",
    "if true { set :local \"w\" \"1\"; set \"x\" \"${w}\"; }",
];
pub const TESTS: &[&str] = &[
    "if address :user :comparator \"i;octet\" [\"from\"] [\"a\"] {}",
    "if address :index 2 :last :all :matches \"to\" \"a*?\" {}",
    "if header :mime :anychild :param [\"p\"] :count \"ge\" \"a\" \"1\" {}",
    "if header :mime :contenttype :value \"lt\" :comparator \"i;ascii-numeric\" \"a\" \"1\" {}",
    "if envelope :detail :contains \"from\" \"a\" {} if exists :mime :anychild [\"a\"] {}",
    "if date :originalzone :value \"ge\" \"date\" \"hour\" \"09\" {} if currentdate :zone \"+0200\" \"weekday\" \"0\" {}",
    "if hasflag :contains [\"v\"] [\"a\"] {} if hasflag \"b\" {}",
    "if body :raw :contains \"a\" {} if body :content [\"text\"] :is \"a\" {} if body :text :matches \"*\" {}",
    "if duplicate :header \"h\" :handle \"x\" :seconds 9 :last {} if duplicate :uniqueid \"a\" {}",
    "if mailboxexists [\"a\"] {} if mailboxidexists \"b\" {} if specialuse_exists \"m\" [\"u\"] {}",
    "if metadata :is \"m\" \"a\" \"v\" {} if servermetadataexists [\"b\"] {}",
    "if notify_method_capability \"mailto:a@b.c\" \"online\" \"yes\" {} if valid_notify_method [\"x:\"] {}",
    "if spamtest :percent :value \"gt\" :comparator \"i;ascii-numeric\" \"5\" {} if virustest \"1\" {}",
    "if environment :is [\"name\"] \"x\" {} if valid_ext_list [\"l\"] {} if ihave [\"a\"] {}",
    "if string :list \"a\" \"l\" {} if convert \"a/b\" \"c/d\" [\"p=1\"] {}",
    "if string :value \"eq\" :comparator \"i;ascii-numeric\" [\"1\", \"2\"] [\"2.5\"] {}",
];
pub const EXPR: &[&str] = &[
    "let \"a\" \"1 + 2 * (3 - -4) / 5\";",
    "let \"a\" \"b && !c || d >= 1.5 && e != 'f'\";",
    "if eval \"global.a == header.subject && len('x') > 0\" {}",
    "let \"v\" \"[1, 'b', c][d]\"; while \"i < 3\" { let \"i\" \"i + 1\"; }",
    "let \"h\" \"header.to[*].addr[*]\"; let \"j\" \"body.text\"; let \"k\" \"part.name\";",
    "set \"v\" \"${header.x-y:subject[-1].raw}${env.z}${envelope.from}\";",
    "eval \"a && (b || [c])\";",
];
pub const REGEX: &[&str] = &[
    "if string :regex \"a\" \"^b+(c|d)*$\" {}",
];
