// Written by tools/derive_gen.py from sa/dspec.py.
use crate::support::*;
use schemars::JsonSchema;

#[derive(JsonSchema)]
pub struct W31_1 {
    pub a: A,
    pub b: B,
    pub c: C,
}
#[derive(JsonSchema)]
pub struct W31_2(
    pub A,
    pub B,
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_3(
    pub A,
    pub B,
);
#[derive(JsonSchema)]
pub enum W31_4 {
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
pub enum W31_5 {
    Va,
    Vb,
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_6 {
    Va(
        A,
        B,
        C,
    ),
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W31_7 {
    Vb(
        B,
    ),
    #[serde(untagged)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_8 {
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_9 {
    Va,
    Vb,
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_10 {
    Va {
        p: A,
    },
    Vb {
        p: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_11 {
    Vb(
        B,
    ),
    #[serde(untagged)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_12 {
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_13 {
    Va,
    Vb,
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_14 {
    Va(
        A,
        B,
        C,
    ),
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_15 {
    Vb(
        B,
    ),
    #[serde(untagged)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_16 {
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_17 {
    Va,
    Vb,
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_18 {
    Va(
        A,
        B,
        C,
    ),
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_19 {
    pub a: A,
    #[serde(skip)]
    pub b: B,
    pub c: C,
}
#[derive(JsonSchema)]
pub struct W31_20(
    pub A,
    #[serde(skip)]
    pub B,
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_21(
    #[serde(skip)]
    pub A,
    #[serde(skip)]
    pub B,
);
#[derive(JsonSchema)]
pub enum W31_22 {
    #[serde(skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
pub enum W31_23 {
    #[serde(skip)]
    Va,
    Vb,
    /// d
    #[serde(skip)]
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_24 {
    Va(
        #[serde(skip)]
        A,
        B,
        #[serde(skip)]
        C,
    ),
    #[serde(skip)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W31_25 {
    #[serde(skip)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_26 {
    #[serde(skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_27 {
    #[serde(skip)]
    Va,
    Vb,
    /// d
    #[serde(skip)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_28 {
    #[serde(skip)]
    Va {
        #[serde(skip)]
        p: A,
    },
    Vb {
        #[serde(skip)]
        p: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_29 {
    #[serde(skip)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_30 {
    #[serde(skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_31 {
    #[serde(skip)]
    Va,
    Vb,
    /// d
    #[serde(skip)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_32 {
    Va(
        #[serde(skip)]
        A,
        B,
        #[serde(skip)]
        C,
    ),
    #[serde(skip)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_33 {
    #[serde(skip)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_34 {
    #[serde(skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_35 {
    #[serde(skip)]
    Va,
    Vb,
    /// d
    #[serde(skip)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_36 {
    Va(
        #[serde(skip)]
        A,
        B,
        #[serde(skip)]
        C,
    ),
    #[serde(skip)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_37 {
    pub a: A,
    #[serde(skip_serializing)]
    pub b: B,
    pub c: C,
}
#[derive(JsonSchema)]
pub struct W31_38(
    pub A,
    #[serde(skip_serializing)]
    pub B,
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_39(
    #[serde(skip_serializing)]
    pub A,
    #[serde(skip_serializing)]
    pub B,
);
#[derive(JsonSchema)]
pub enum W31_40 {
    #[serde(skip_serializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
pub enum W31_41 {
    #[serde(skip_serializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_42 {
    Va(
        #[serde(skip_serializing)]
        A,
        B,
        #[serde(skip_serializing)]
        C,
    ),
    #[serde(skip_serializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W31_43 {
    #[serde(skip_serializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_serializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_44 {
    #[serde(skip_serializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_45 {
    #[serde(skip_serializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_46 {
    #[serde(skip_serializing)]
    Va {
        #[serde(skip_serializing)]
        p: A,
    },
    Vb {
        #[serde(skip_serializing)]
        p: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_47 {
    #[serde(skip_serializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_serializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_48 {
    #[serde(skip_serializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_49 {
    #[serde(skip_serializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_50 {
    Va(
        #[serde(skip_serializing)]
        A,
        B,
        #[serde(skip_serializing)]
        C,
    ),
    #[serde(skip_serializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_51 {
    #[serde(skip_serializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_serializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_52 {
    #[serde(skip_serializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_53 {
    #[serde(skip_serializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_54 {
    Va(
        #[serde(skip_serializing)]
        A,
        B,
        #[serde(skip_serializing)]
        C,
    ),
    #[serde(skip_serializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_55 {
    pub a: A,
    #[serde(skip_deserializing)]
    pub b: B,
    pub c: C,
}
#[derive(JsonSchema)]
pub struct W31_56(
    pub A,
    #[serde(skip_deserializing)]
    pub B,
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_57(
    #[serde(skip_deserializing)]
    pub A,
    #[serde(skip_deserializing)]
    pub B,
);
#[derive(JsonSchema)]
pub enum W31_58 {
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
pub enum W31_59 {
    #[serde(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_60 {
    Va(
        #[serde(skip_deserializing)]
        A,
        B,
        #[serde(skip_deserializing)]
        C,
    ),
    #[serde(skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W31_61 {
    #[serde(skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_62 {
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_63 {
    #[serde(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_64 {
    #[serde(skip_deserializing)]
    Va {
        #[serde(skip_deserializing)]
        p: A,
    },
    Vb {
        #[serde(skip_deserializing)]
        p: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_65 {
    #[serde(skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_66 {
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_67 {
    #[serde(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_68 {
    Va(
        #[serde(skip_deserializing)]
        A,
        B,
        #[serde(skip_deserializing)]
        C,
    ),
    #[serde(skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_69 {
    #[serde(skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_70 {
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_71 {
    #[serde(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_72 {
    Va(
        #[serde(skip_deserializing)]
        A,
        B,
        #[serde(skip_deserializing)]
        C,
    ),
    #[serde(skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_73 {
    pub a: A,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub b: B,
    pub c: C,
}
#[derive(JsonSchema)]
pub struct W31_74(
    pub A,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub B,
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_75(
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub A,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub B,
);
#[derive(JsonSchema)]
pub enum W31_76 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
pub enum W31_77 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_78 {
    Va(
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        A,
        B,
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        C,
    ),
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W31_79 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_80 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_81 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_82 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va {
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        p: A,
    },
    Vb {
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        p: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_83 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_84 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_85 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_86 {
    Va(
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        A,
        B,
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        C,
    ),
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_87 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_88 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_89 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_90 {
    Va(
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        A,
        B,
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        C,
    ),
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_91 {
    pub a: A,
    #[schemars(skip)]
    pub b: B,
    pub c: C,
}
#[derive(JsonSchema)]
pub struct W31_92(
    pub A,
    #[schemars(skip)]
    pub B,
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_93(
    #[schemars(skip)]
    pub A,
    #[schemars(skip)]
    pub B,
);
#[derive(JsonSchema)]
pub enum W31_94 {
    #[schemars(skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[schemars(skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
pub enum W31_95 {
    #[schemars(skip)]
    Va,
    Vb,
    /// d
    #[schemars(skip)]
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_96 {
    Va(
        #[schemars(skip)]
        A,
        B,
        #[schemars(skip)]
        C,
    ),
    #[schemars(skip)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W31_97 {
    #[schemars(skip)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[schemars(skip)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_98 {
    #[schemars(skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[schemars(skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_99 {
    #[schemars(skip)]
    Va,
    Vb,
    /// d
    #[schemars(skip)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_100 {
    #[schemars(skip)]
    Va {
        #[schemars(skip)]
        p: A,
    },
    Vb {
        #[schemars(skip)]
        p: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_101 {
    #[schemars(skip)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[schemars(skip)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_102 {
    #[schemars(skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[schemars(skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_103 {
    #[schemars(skip)]
    Va,
    Vb,
    /// d
    #[schemars(skip)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_104 {
    Va(
        #[schemars(skip)]
        A,
        B,
        #[schemars(skip)]
        C,
    ),
    #[schemars(skip)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_105 {
    #[schemars(skip)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[schemars(skip)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_106 {
    #[schemars(skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[schemars(skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_107 {
    #[schemars(skip)]
    Va,
    Vb,
    /// d
    #[schemars(skip)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_108 {
    Va(
        #[schemars(skip)]
        A,
        B,
        #[schemars(skip)]
        C,
    ),
    #[schemars(skip)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_109 {
    pub a: A,
    #[schemars(skip_serializing)]
    pub b: B,
    pub c: C,
}
#[derive(JsonSchema)]
pub struct W31_110(
    pub A,
    #[schemars(skip_serializing)]
    pub B,
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_111(
    #[schemars(skip_serializing)]
    pub A,
    #[schemars(skip_serializing)]
    pub B,
);
#[derive(JsonSchema)]
pub enum W31_112 {
    #[schemars(skip_serializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[schemars(skip_serializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
pub enum W31_113 {
    #[schemars(skip_serializing)]
    Va,
    Vb,
    /// d
    #[schemars(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_114 {
    Va(
        #[schemars(skip_serializing)]
        A,
        B,
        #[schemars(skip_serializing)]
        C,
    ),
    #[schemars(skip_serializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W31_115 {
    #[schemars(skip_serializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[schemars(skip_serializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_116 {
    #[schemars(skip_serializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[schemars(skip_serializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_117 {
    #[schemars(skip_serializing)]
    Va,
    Vb,
    /// d
    #[schemars(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_118 {
    #[schemars(skip_serializing)]
    Va {
        #[schemars(skip_serializing)]
        p: A,
    },
    Vb {
        #[schemars(skip_serializing)]
        p: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_119 {
    #[schemars(skip_serializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[schemars(skip_serializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_120 {
    #[schemars(skip_serializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[schemars(skip_serializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_121 {
    #[schemars(skip_serializing)]
    Va,
    Vb,
    /// d
    #[schemars(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_122 {
    Va(
        #[schemars(skip_serializing)]
        A,
        B,
        #[schemars(skip_serializing)]
        C,
    ),
    #[schemars(skip_serializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_123 {
    #[schemars(skip_serializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[schemars(skip_serializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_124 {
    #[schemars(skip_serializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[schemars(skip_serializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_125 {
    #[schemars(skip_serializing)]
    Va,
    Vb,
    /// d
    #[schemars(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_126 {
    Va(
        #[schemars(skip_serializing)]
        A,
        B,
        #[schemars(skip_serializing)]
        C,
    ),
    #[schemars(skip_serializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_127 {
    pub a: A,
    #[schemars(skip_deserializing)]
    pub b: B,
    pub c: C,
}
#[derive(JsonSchema)]
pub struct W31_128(
    pub A,
    #[schemars(skip_deserializing)]
    pub B,
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_129(
    #[schemars(skip_deserializing)]
    pub A,
    #[schemars(skip_deserializing)]
    pub B,
);
#[derive(JsonSchema)]
pub enum W31_130 {
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[schemars(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
pub enum W31_131 {
    #[schemars(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[schemars(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_132 {
    Va(
        #[schemars(skip_deserializing)]
        A,
        B,
        #[schemars(skip_deserializing)]
        C,
    ),
    #[schemars(skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W31_133 {
    #[schemars(skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_134 {
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[schemars(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_135 {
    #[schemars(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[schemars(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_136 {
    #[schemars(skip_deserializing)]
    Va {
        #[schemars(skip_deserializing)]
        p: A,
    },
    Vb {
        #[schemars(skip_deserializing)]
        p: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_137 {
    #[schemars(skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_138 {
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[schemars(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_139 {
    #[schemars(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[schemars(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_140 {
    Va(
        #[schemars(skip_deserializing)]
        A,
        B,
        #[schemars(skip_deserializing)]
        C,
    ),
    #[schemars(skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_141 {
    #[schemars(skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_142 {
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[schemars(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_143 {
    #[schemars(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[schemars(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_144 {
    Va(
        #[schemars(skip_deserializing)]
        A,
        B,
        #[schemars(skip_deserializing)]
        C,
    ),
    #[schemars(skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_145 {
    pub a: A,
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub b: B,
    pub c: C,
}
#[derive(JsonSchema)]
pub struct W31_146(
    pub A,
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub B,
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_147(
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub A,
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub B,
);
#[derive(JsonSchema)]
pub enum W31_148 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
pub enum W31_149 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_150 {
    Va(
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        A,
        B,
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        C,
    ),
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W31_151 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_152 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_153 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_154 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Va {
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        p: A,
    },
    Vb {
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        p: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_155 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_156 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_157 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_158 {
    Va(
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        A,
        B,
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        C,
    ),
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_159 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_160 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_161 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_162 {
    Va(
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        A,
        B,
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        C,
    ),
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_163 {
    pub a: A,
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub b: B,
    pub c: C,
}
#[derive(JsonSchema)]
pub struct W31_164(
    pub A,
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub B,
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_165(
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub A,
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub B,
);
#[derive(JsonSchema)]
pub enum W31_166 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
pub enum W31_167 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_168 {
    Va(
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        A,
        B,
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        C,
    ),
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W31_169 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_170 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_171 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_172 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Va {
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        p: A,
    },
    Vb {
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        p: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_173 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_174 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_175 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_176 {
    Va(
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        A,
        B,
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        C,
    ),
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_177 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_178 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_179 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_180 {
    Va(
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        A,
        B,
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        C,
    ),
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_181 {
    pub a: A,
    #[serde(skip)]
    #[schemars(!skip)]
    pub b: B,
    pub c: C,
}
#[derive(JsonSchema)]
pub struct W31_182(
    pub A,
    #[serde(skip)]
    #[schemars(!skip)]
    pub B,
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_183(
    #[serde(skip)]
    #[schemars(!skip)]
    pub A,
    #[serde(skip)]
    #[schemars(!skip)]
    pub B,
);
#[derive(JsonSchema)]
pub enum W31_184 {
    #[serde(skip)]
    #[schemars(!skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip)]
        #[schemars(!skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
pub enum W31_185 {
    #[serde(skip)]
    #[schemars(!skip)]
    Va,
    Vb,
    /// d
    #[serde(skip)]
    #[schemars(!skip)]
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_186 {
    Va(
        #[serde(skip)]
        #[schemars(!skip)]
        A,
        B,
        #[serde(skip)]
        #[schemars(!skip)]
        C,
    ),
    #[serde(skip)]
    #[schemars(!skip)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W31_187 {
    #[serde(skip)]
    #[schemars(!skip)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip)]
    #[schemars(!skip)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_188 {
    #[serde(skip)]
    #[schemars(!skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip)]
        #[schemars(!skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_189 {
    #[serde(skip)]
    #[schemars(!skip)]
    Va,
    Vb,
    /// d
    #[serde(skip)]
    #[schemars(!skip)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_190 {
    #[serde(skip)]
    #[schemars(!skip)]
    Va {
        #[serde(skip)]
        #[schemars(!skip)]
        p: A,
    },
    Vb {
        #[serde(skip)]
        #[schemars(!skip)]
        p: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_191 {
    #[serde(skip)]
    #[schemars(!skip)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip)]
    #[schemars(!skip)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_192 {
    #[serde(skip)]
    #[schemars(!skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip)]
        #[schemars(!skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_193 {
    #[serde(skip)]
    #[schemars(!skip)]
    Va,
    Vb,
    /// d
    #[serde(skip)]
    #[schemars(!skip)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_194 {
    Va(
        #[serde(skip)]
        #[schemars(!skip)]
        A,
        B,
        #[serde(skip)]
        #[schemars(!skip)]
        C,
    ),
    #[serde(skip)]
    #[schemars(!skip)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_195 {
    #[serde(skip)]
    #[schemars(!skip)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip)]
    #[schemars(!skip)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_196 {
    #[serde(skip)]
    #[schemars(!skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip)]
        #[schemars(!skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_197 {
    #[serde(skip)]
    #[schemars(!skip)]
    Va,
    Vb,
    /// d
    #[serde(skip)]
    #[schemars(!skip)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_198 {
    Va(
        #[serde(skip)]
        #[schemars(!skip)]
        A,
        B,
        #[serde(skip)]
        #[schemars(!skip)]
        C,
    ),
    #[serde(skip)]
    #[schemars(!skip)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_199 {
    pub a: A,
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub b: B,
    pub c: C,
}
#[derive(JsonSchema)]
pub struct W31_200(
    pub A,
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub B,
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_201(
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub A,
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub B,
);
#[derive(JsonSchema)]
pub enum W31_202 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
pub enum W31_203 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_204 {
    Va(
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        A,
        B,
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        C,
    ),
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W31_205 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_206 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_207 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_208 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Va {
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        p: A,
    },
    Vb {
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        p: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_209 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_210 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_211 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_212 {
    Va(
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        A,
        B,
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        C,
    ),
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_213 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_214 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_215 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Va,
    Vb,
    /// d
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_216 {
    Va(
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        A,
        B,
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        C,
    ),
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_217 {
    pub a: A,
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    pub b: B,
    pub c: C,
}
#[derive(JsonSchema)]
pub struct W31_218(
    pub A,
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    pub B,
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_219(
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    pub A,
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    pub B,
);
#[derive(JsonSchema)]
pub enum W31_220 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
pub enum W31_221 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Va,
    Vb,
    /// d
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_222 {
    Va(
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        A,
        B,
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        C,
    ),
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W31_223 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_224 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_225 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Va,
    Vb,
    /// d
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_226 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Va {
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        p: A,
    },
    Vb {
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        p: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_227 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_228 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_229 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Va,
    Vb,
    /// d
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_230 {
    Va(
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        A,
        B,
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        C,
    ),
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_231 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Vb(
        B,
    ),
    #[serde(untagged)]
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Va(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_232 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Va(
        A,
    ),
    Vb(
        B,
    ),
    Vc {
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        c: C,
        d: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_233 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Va,
    Vb,
    /// d
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_234 {
    Va(
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        A,
        B,
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        C,
    ),
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    Vb(
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_235 {
    pub a: A,
    pub b: Option<B>,
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_236 {
    pub a: A,
    #[serde(skip)]
    pub b: Option<B>,
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_237 {
    pub a: A,
    #[serde(skip_serializing)]
    pub b: Option<B>,
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_238 {
    pub a: A,
    #[serde(skip_deserializing)]
    pub b: Option<B>,
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_239 {
    pub a: A,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub b: Option<B>,
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_240 {
    #[serde(skip)]
    pub a: A,
    pub b: Option<B>,
    #[serde(skip)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_241 {
    #[serde(skip)]
    pub a: A,
    #[serde(skip)]
    pub b: Option<B>,
    #[serde(skip)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_242 {
    #[serde(skip)]
    pub a: A,
    #[serde(skip_serializing)]
    pub b: Option<B>,
    #[serde(skip)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_243 {
    #[serde(skip)]
    pub a: A,
    #[serde(skip_deserializing)]
    pub b: Option<B>,
    #[serde(skip)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_244 {
    #[serde(skip)]
    pub a: A,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub b: Option<B>,
    #[serde(skip)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_245 {
    #[serde(skip_serializing)]
    pub a: A,
    pub b: Option<B>,
    #[serde(skip_serializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_246 {
    #[serde(skip_serializing)]
    pub a: A,
    #[serde(skip)]
    pub b: Option<B>,
    #[serde(skip_serializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_247 {
    #[serde(skip_serializing)]
    pub a: A,
    #[serde(skip_serializing)]
    pub b: Option<B>,
    #[serde(skip_serializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_248 {
    #[serde(skip_serializing)]
    pub a: A,
    #[serde(skip_deserializing)]
    pub b: Option<B>,
    #[serde(skip_serializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_249 {
    #[serde(skip_serializing)]
    pub a: A,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub b: Option<B>,
    #[serde(skip_serializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_250 {
    #[serde(skip_deserializing)]
    pub a: A,
    pub b: Option<B>,
    #[serde(skip_deserializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_251 {
    #[serde(skip_deserializing)]
    pub a: A,
    #[serde(skip)]
    pub b: Option<B>,
    #[serde(skip_deserializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_252 {
    #[serde(skip_deserializing)]
    pub a: A,
    #[serde(skip_serializing)]
    pub b: Option<B>,
    #[serde(skip_deserializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_253 {
    #[serde(skip_deserializing)]
    pub a: A,
    #[serde(skip_deserializing)]
    pub b: Option<B>,
    #[serde(skip_deserializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_254 {
    #[serde(skip_deserializing)]
    pub a: A,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub b: Option<B>,
    #[serde(skip_deserializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_255 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub a: A,
    pub b: Option<B>,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_256 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub a: A,
    #[serde(skip)]
    pub b: Option<B>,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_257 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub a: A,
    #[serde(skip_serializing)]
    pub b: Option<B>,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_258 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub a: A,
    #[serde(skip_deserializing)]
    pub b: Option<B>,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_259 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub a: A,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub b: Option<B>,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[serde(default)]
    pub c: D,
}
#[derive(JsonSchema)]
pub struct W31_260 {
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub a: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_261 {
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub a: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_262 {
    #[serde(flatten)]
    #[serde(skip)]
    pub a: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_263(
    #[serde(skip_serializing)]
    pub A,
);
#[derive(JsonSchema)]
pub struct W31_264(
    #[serde(skip_deserializing)]
    pub A,
);
#[derive(JsonSchema)]
pub struct W31_265 {
    #[serde(skip)]
    pub a: A,
}
#[derive(JsonSchema)]
pub struct W31_266 {

}
#[derive(JsonSchema)]
pub struct W31_267(

);
#[derive(JsonSchema)]
pub struct W31_268;
#[derive(JsonSchema)]
pub enum W31_269 {
}
#[derive(JsonSchema)]
pub enum W31_270 {
    Va {

    },
    Vb(

    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_271 {
    Va {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_272 {
    Va {

    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_273 {
    Va {

    },
}
#[derive(JsonSchema)]
pub struct W32_1 {
    pub f0: A,
    pub f1: Option<A>,
    pub f2: D,
    pub f3: Option<Option<A>>,
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_2 {
    pub f0: A,
    pub f1: Option<A>,
    pub f2: D,
    pub f3: Option<Option<A>>,
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub enum W32_3 {
    Va {
        f0: A,
        f1: Option<A>,
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_4 {
    Va {
        f0: A,
        f1: Option<A>,
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_5 {
    Va {
        f0: A,
        f1: Option<A>,
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_6 {
    Va {
        f0: A,
        f1: Option<A>,
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_7 {
    #[schemars(required)]
    pub f0: A,
    #[schemars(required)]
    pub f1: Option<A>,
    #[schemars(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_8 {
    Va {
        #[schemars(required)]
        f0: A,
        #[schemars(required)]
        f1: Option<A>,
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_9 {
    Va {
        #[schemars(required)]
        f0: A,
        #[schemars(required)]
        f1: Option<A>,
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_10 {
    Va {
        #[schemars(required)]
        f0: A,
        #[schemars(required)]
        f1: Option<A>,
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_11 {
    Va {
        #[schemars(required)]
        f0: A,
        #[schemars(required)]
        f1: Option<A>,
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_12 {
    #[validate(required)]
    pub f0: A,
    #[validate(required)]
    pub f1: Option<A>,
    #[validate(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_13 {
    Va {
        #[validate(required)]
        f0: A,
        #[validate(required)]
        f1: Option<A>,
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_14 {
    Va {
        #[validate(required)]
        f0: A,
        #[validate(required)]
        f1: Option<A>,
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_15 {
    Va {
        #[validate(required)]
        f0: A,
        #[validate(required)]
        f1: Option<A>,
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_16 {
    Va {
        #[validate(required)]
        f0: A,
        #[validate(required)]
        f1: Option<A>,
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_17 {
    #[garde(required)]
    pub f0: A,
    #[garde(required)]
    pub f1: Option<A>,
    #[garde(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_18 {
    Va {
        #[garde(required)]
        f0: A,
        #[garde(required)]
        f1: Option<A>,
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_19 {
    Va {
        #[garde(required)]
        f0: A,
        #[garde(required)]
        f1: Option<A>,
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_20 {
    Va {
        #[garde(required)]
        f0: A,
        #[garde(required)]
        f1: Option<A>,
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_21 {
    Va {
        #[garde(required)]
        f0: A,
        #[garde(required)]
        f1: Option<A>,
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_22 {
    #[serde(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(skip_serializing_if = "sif")]
    pub f2: D,
    #[serde(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[serde(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_23 {
    #[serde(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(skip_serializing_if = "sif")]
    pub f2: D,
    #[serde(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[serde(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub enum W32_24 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_25 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_26 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_27 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_28 {
    #[serde(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f0: A,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f1: Option<A>,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_29 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        #[schemars(required)]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        #[schemars(required)]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_30 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        #[schemars(required)]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        #[schemars(required)]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_31 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        #[schemars(required)]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        #[schemars(required)]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_32 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        #[schemars(required)]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        #[schemars(required)]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_33 {
    #[serde(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f0: A,
    #[serde(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f1: Option<A>,
    #[serde(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_34 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        #[validate(required)]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        #[validate(required)]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_35 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        #[validate(required)]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        #[validate(required)]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_36 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        #[validate(required)]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        #[validate(required)]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_37 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        #[validate(required)]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        #[validate(required)]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_38 {
    #[serde(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f0: A,
    #[serde(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f1: Option<A>,
    #[serde(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_39 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        #[garde(required)]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        #[garde(required)]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_40 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        #[garde(required)]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        #[garde(required)]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_41 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        #[garde(required)]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        #[garde(required)]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_42 {
    Va {
        #[serde(skip_serializing_if = "sif")]
        #[garde(required)]
        f0: A,
        #[serde(skip_serializing_if = "sif")]
        #[garde(required)]
        f1: Option<A>,
        #[serde(skip_serializing_if = "sif")]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_43 {
    #[schemars(skip_serializing_if = "sif")]
    pub f0: A,
    #[schemars(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[schemars(skip_serializing_if = "sif")]
    pub f2: D,
    #[schemars(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[schemars(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_44 {
    #[schemars(skip_serializing_if = "sif")]
    pub f0: A,
    #[schemars(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[schemars(skip_serializing_if = "sif")]
    pub f2: D,
    #[schemars(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[schemars(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub enum W32_45 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_46 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_47 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_48 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_49 {
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f0: A,
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f1: Option<A>,
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_50 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(required)]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(required)]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_51 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(required)]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(required)]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_52 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(required)]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(required)]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_53 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(required)]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(required)]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_54 {
    #[schemars(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f0: A,
    #[schemars(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f1: Option<A>,
    #[schemars(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_55 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        #[validate(required)]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        #[validate(required)]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_56 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        #[validate(required)]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        #[validate(required)]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_57 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        #[validate(required)]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        #[validate(required)]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_58 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        #[validate(required)]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        #[validate(required)]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_59 {
    #[schemars(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f0: A,
    #[schemars(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f1: Option<A>,
    #[schemars(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_60 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        #[garde(required)]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        #[garde(required)]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_61 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        #[garde(required)]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        #[garde(required)]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_62 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        #[garde(required)]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        #[garde(required)]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_63 {
    Va {
        #[schemars(skip_serializing_if = "sif")]
        #[garde(required)]
        f0: A,
        #[schemars(skip_serializing_if = "sif")]
        #[garde(required)]
        f1: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_64 {
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f0: A,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f1: Option<A>,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f2: D,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f3: Option<Option<A>>,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_65 {
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f0: A,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f1: Option<A>,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f2: D,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f3: Option<Option<A>>,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub struct W32_66 {
    #[serde(default)]
    pub f0: A,
    #[serde(default)]
    pub f1: Option<A>,
    #[serde(default)]
    pub f2: D,
    #[serde(default)]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_67 {
    #[serde(default)]
    pub f0: A,
    #[serde(default)]
    pub f1: Option<A>,
    #[serde(default)]
    pub f2: D,
    #[serde(default)]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub enum W32_68 {
    Va {
        #[serde(default)]
        f0: A,
        #[serde(default)]
        f1: Option<A>,
        #[serde(default)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_69 {
    Va {
        #[serde(default)]
        f0: A,
        #[serde(default)]
        f1: Option<A>,
        #[serde(default)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_70 {
    Va {
        #[serde(default)]
        f0: A,
        #[serde(default)]
        f1: Option<A>,
        #[serde(default)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_71 {
    Va {
        #[serde(default)]
        f0: A,
        #[serde(default)]
        f1: Option<A>,
        #[serde(default)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_72 {
    #[serde(default)]
    #[schemars(required)]
    pub f0: A,
    #[serde(default)]
    #[schemars(required)]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_73 {
    Va {
        #[serde(default)]
        #[schemars(required)]
        f0: A,
        #[serde(default)]
        #[schemars(required)]
        f1: Option<A>,
        #[serde(default)]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_74 {
    Va {
        #[serde(default)]
        #[schemars(required)]
        f0: A,
        #[serde(default)]
        #[schemars(required)]
        f1: Option<A>,
        #[serde(default)]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_75 {
    Va {
        #[serde(default)]
        #[schemars(required)]
        f0: A,
        #[serde(default)]
        #[schemars(required)]
        f1: Option<A>,
        #[serde(default)]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_76 {
    Va {
        #[serde(default)]
        #[schemars(required)]
        f0: A,
        #[serde(default)]
        #[schemars(required)]
        f1: Option<A>,
        #[serde(default)]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_77 {
    #[serde(default)]
    #[validate(required)]
    pub f0: A,
    #[serde(default)]
    #[validate(required)]
    pub f1: Option<A>,
    #[serde(default)]
    #[validate(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_78 {
    Va {
        #[serde(default)]
        #[validate(required)]
        f0: A,
        #[serde(default)]
        #[validate(required)]
        f1: Option<A>,
        #[serde(default)]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_79 {
    Va {
        #[serde(default)]
        #[validate(required)]
        f0: A,
        #[serde(default)]
        #[validate(required)]
        f1: Option<A>,
        #[serde(default)]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_80 {
    Va {
        #[serde(default)]
        #[validate(required)]
        f0: A,
        #[serde(default)]
        #[validate(required)]
        f1: Option<A>,
        #[serde(default)]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_81 {
    Va {
        #[serde(default)]
        #[validate(required)]
        f0: A,
        #[serde(default)]
        #[validate(required)]
        f1: Option<A>,
        #[serde(default)]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_82 {
    #[serde(default)]
    #[garde(required)]
    pub f0: A,
    #[serde(default)]
    #[garde(required)]
    pub f1: Option<A>,
    #[serde(default)]
    #[garde(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_83 {
    Va {
        #[serde(default)]
        #[garde(required)]
        f0: A,
        #[serde(default)]
        #[garde(required)]
        f1: Option<A>,
        #[serde(default)]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_84 {
    Va {
        #[serde(default)]
        #[garde(required)]
        f0: A,
        #[serde(default)]
        #[garde(required)]
        f1: Option<A>,
        #[serde(default)]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_85 {
    Va {
        #[serde(default)]
        #[garde(required)]
        f0: A,
        #[serde(default)]
        #[garde(required)]
        f1: Option<A>,
        #[serde(default)]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_86 {
    Va {
        #[serde(default)]
        #[garde(required)]
        f0: A,
        #[serde(default)]
        #[garde(required)]
        f1: Option<A>,
        #[serde(default)]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_87 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f2: D,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_88 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f2: D,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub enum W32_89 {
    Va {
        #[serde(default)]
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default)]
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default)]
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_90 {
    Va {
        #[serde(default)]
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default)]
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default)]
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_91 {
    Va {
        #[serde(default)]
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default)]
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default)]
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_92 {
    Va {
        #[serde(default)]
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default)]
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default)]
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_93 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f0: A,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f1: Option<A>,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_94 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f0: A,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f1: Option<A>,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_95 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f0: A,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f1: Option<A>,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_96 {
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f2: D,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_97 {
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f2: D,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub enum W32_98 {
    Va {
        #[serde(default)]
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default)]
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default)]
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_99 {
    Va {
        #[serde(default)]
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default)]
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default)]
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_100 {
    Va {
        #[serde(default)]
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default)]
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default)]
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_101 {
    Va {
        #[serde(default)]
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default)]
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default)]
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_102 {
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f0: A,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_103 {
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f0: A,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_104 {
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f0: A,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_105 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f0: A,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f1: Option<A>,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f2: D,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_106 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f0: A,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f1: Option<A>,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f2: D,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub struct W32_107 {
    #[serde(default = "dflt_a")]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    pub f2: D,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_108 {
    #[serde(default = "dflt_a")]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_109 {
    Va {
        #[serde(default = "dflt_a")]
        f0: A,
        #[serde(default = "dflt_oa")]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_110 {
    Va {
        #[serde(default = "dflt_a")]
        f0: A,
        #[serde(default = "dflt_oa")]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_111 {
    Va {
        #[serde(default = "dflt_a")]
        f0: A,
        #[serde(default = "dflt_oa")]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_112 {
    Va {
        #[serde(default = "dflt_a")]
        f0: A,
        #[serde(default = "dflt_oa")]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_113 {
    #[serde(default = "dflt_a")]
    #[schemars(required)]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[schemars(required)]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[schemars(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_114 {
    Va {
        #[serde(default = "dflt_a")]
        #[schemars(required)]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[schemars(required)]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_115 {
    Va {
        #[serde(default = "dflt_a")]
        #[schemars(required)]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[schemars(required)]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_116 {
    Va {
        #[serde(default = "dflt_a")]
        #[schemars(required)]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[schemars(required)]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_117 {
    Va {
        #[serde(default = "dflt_a")]
        #[schemars(required)]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[schemars(required)]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_118 {
    #[serde(default = "dflt_a")]
    #[validate(required)]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[validate(required)]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[validate(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_119 {
    Va {
        #[serde(default = "dflt_a")]
        #[validate(required)]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[validate(required)]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_120 {
    Va {
        #[serde(default = "dflt_a")]
        #[validate(required)]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[validate(required)]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_121 {
    Va {
        #[serde(default = "dflt_a")]
        #[validate(required)]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[validate(required)]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_122 {
    Va {
        #[serde(default = "dflt_a")]
        #[validate(required)]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[validate(required)]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_123 {
    #[serde(default = "dflt_a")]
    #[garde(required)]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[garde(required)]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[garde(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_124 {
    Va {
        #[serde(default = "dflt_a")]
        #[garde(required)]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[garde(required)]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_125 {
    Va {
        #[serde(default = "dflt_a")]
        #[garde(required)]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[garde(required)]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_126 {
    Va {
        #[serde(default = "dflt_a")]
        #[garde(required)]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[garde(required)]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_127 {
    Va {
        #[serde(default = "dflt_a")]
        #[garde(required)]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[garde(required)]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_128 {
    #[serde(default = "dflt_a")]
    #[serde(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[serde(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[serde(skip_serializing_if = "sif")]
    pub f2: D,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_129 {
    #[serde(default = "dflt_a")]
    #[serde(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[serde(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[serde(skip_serializing_if = "sif")]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_130 {
    Va {
        #[serde(default = "dflt_a")]
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_131 {
    Va {
        #[serde(default = "dflt_a")]
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_132 {
    Va {
        #[serde(default = "dflt_a")]
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_133 {
    Va {
        #[serde(default = "dflt_a")]
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_134 {
    #[serde(default = "dflt_a")]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_135 {
    #[serde(default = "dflt_a")]
    #[serde(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[serde(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[serde(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_136 {
    #[serde(default = "dflt_a")]
    #[serde(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[serde(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[serde(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_137 {
    #[serde(default = "dflt_a")]
    #[schemars(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[schemars(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[schemars(skip_serializing_if = "sif")]
    pub f2: D,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_138 {
    #[serde(default = "dflt_a")]
    #[schemars(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[schemars(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[schemars(skip_serializing_if = "sif")]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_139 {
    Va {
        #[serde(default = "dflt_a")]
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_140 {
    Va {
        #[serde(default = "dflt_a")]
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_141 {
    Va {
        #[serde(default = "dflt_a")]
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_142 {
    Va {
        #[serde(default = "dflt_a")]
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[serde(default = "dflt_oa")]
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[serde(default = "dflt_d")]
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_143 {
    #[serde(default = "dflt_a")]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_144 {
    #[serde(default = "dflt_a")]
    #[schemars(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[schemars(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[schemars(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_145 {
    #[serde(default = "dflt_a")]
    #[schemars(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[schemars(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[schemars(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_146 {
    #[serde(default = "dflt_a")]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f2: D,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_147 {
    #[serde(default = "dflt_a")]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f0: A,
    #[serde(default = "dflt_oa")]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f1: Option<A>,
    #[serde(default = "dflt_d")]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_148 {
    #[schemars(default)]
    pub f0: A,
    #[schemars(default)]
    pub f1: Option<A>,
    #[schemars(default)]
    pub f2: D,
    #[schemars(default)]
    pub f3: Option<Option<A>>,
    #[schemars(default)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_149 {
    #[schemars(default)]
    pub f0: A,
    #[schemars(default)]
    pub f1: Option<A>,
    #[schemars(default)]
    pub f2: D,
    #[schemars(default)]
    pub f3: Option<Option<A>>,
    #[schemars(default)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub enum W32_150 {
    Va {
        #[schemars(default)]
        f0: A,
        #[schemars(default)]
        f1: Option<A>,
        #[schemars(default)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_151 {
    Va {
        #[schemars(default)]
        f0: A,
        #[schemars(default)]
        f1: Option<A>,
        #[schemars(default)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_152 {
    Va {
        #[schemars(default)]
        f0: A,
        #[schemars(default)]
        f1: Option<A>,
        #[schemars(default)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_153 {
    Va {
        #[schemars(default)]
        f0: A,
        #[schemars(default)]
        f1: Option<A>,
        #[schemars(default)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_154 {
    #[schemars(default)]
    #[schemars(required)]
    pub f0: A,
    #[schemars(default)]
    #[schemars(required)]
    pub f1: Option<A>,
    #[schemars(default)]
    #[schemars(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_155 {
    Va {
        #[schemars(default)]
        #[schemars(required)]
        f0: A,
        #[schemars(default)]
        #[schemars(required)]
        f1: Option<A>,
        #[schemars(default)]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_156 {
    Va {
        #[schemars(default)]
        #[schemars(required)]
        f0: A,
        #[schemars(default)]
        #[schemars(required)]
        f1: Option<A>,
        #[schemars(default)]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_157 {
    Va {
        #[schemars(default)]
        #[schemars(required)]
        f0: A,
        #[schemars(default)]
        #[schemars(required)]
        f1: Option<A>,
        #[schemars(default)]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_158 {
    Va {
        #[schemars(default)]
        #[schemars(required)]
        f0: A,
        #[schemars(default)]
        #[schemars(required)]
        f1: Option<A>,
        #[schemars(default)]
        #[schemars(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_159 {
    #[schemars(default)]
    #[validate(required)]
    pub f0: A,
    #[schemars(default)]
    #[validate(required)]
    pub f1: Option<A>,
    #[schemars(default)]
    #[validate(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_160 {
    Va {
        #[schemars(default)]
        #[validate(required)]
        f0: A,
        #[schemars(default)]
        #[validate(required)]
        f1: Option<A>,
        #[schemars(default)]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_161 {
    Va {
        #[schemars(default)]
        #[validate(required)]
        f0: A,
        #[schemars(default)]
        #[validate(required)]
        f1: Option<A>,
        #[schemars(default)]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_162 {
    Va {
        #[schemars(default)]
        #[validate(required)]
        f0: A,
        #[schemars(default)]
        #[validate(required)]
        f1: Option<A>,
        #[schemars(default)]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_163 {
    Va {
        #[schemars(default)]
        #[validate(required)]
        f0: A,
        #[schemars(default)]
        #[validate(required)]
        f1: Option<A>,
        #[schemars(default)]
        #[validate(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_164 {
    #[schemars(default)]
    #[garde(required)]
    pub f0: A,
    #[schemars(default)]
    #[garde(required)]
    pub f1: Option<A>,
    #[schemars(default)]
    #[garde(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub enum W32_165 {
    Va {
        #[schemars(default)]
        #[garde(required)]
        f0: A,
        #[schemars(default)]
        #[garde(required)]
        f1: Option<A>,
        #[schemars(default)]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_166 {
    Va {
        #[schemars(default)]
        #[garde(required)]
        f0: A,
        #[schemars(default)]
        #[garde(required)]
        f1: Option<A>,
        #[schemars(default)]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_167 {
    Va {
        #[schemars(default)]
        #[garde(required)]
        f0: A,
        #[schemars(default)]
        #[garde(required)]
        f1: Option<A>,
        #[schemars(default)]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_168 {
    Va {
        #[schemars(default)]
        #[garde(required)]
        f0: A,
        #[schemars(default)]
        #[garde(required)]
        f1: Option<A>,
        #[schemars(default)]
        #[garde(required)]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_169 {
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f0: A,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f2: D,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_170 {
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f0: A,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f2: D,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub enum W32_171 {
    Va {
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_172 {
    Va {
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_173 {
    Va {
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_174 {
    Va {
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        f0: A,
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_175 {
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f0: A,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f1: Option<A>,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_176 {
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f0: A,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f1: Option<A>,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_177 {
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f0: A,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f1: Option<A>,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_178 {
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f0: A,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f2: D,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_179 {
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f0: A,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f2: D,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub enum W32_180 {
    Va {
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_181 {
    Va {
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_182 {
    Va {
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_183 {
    Va {
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        f0: A,
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        f1: Option<A>,
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        f2: D,
    },
}
#[derive(JsonSchema)]
pub struct W32_184 {
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f0: A,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f1: Option<A>,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_185 {
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f0: A,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f1: Option<A>,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[validate(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_186 {
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f0: A,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f1: Option<A>,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[garde(required)]
    pub f2: D,
}
#[derive(JsonSchema)]
pub struct W32_187 {
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f0: A,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f1: Option<A>,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f2: D,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f3: Option<Option<A>>,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_188 {
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f0: A,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f1: Option<A>,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f2: D,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f3: Option<Option<A>>,
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub struct W32_189 {
    #[serde(default)]
    #[schemars(!default)]
    pub f0: A,
    #[serde(default)]
    #[schemars(!default)]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(!default)]
    pub f2: D,
    #[serde(default)]
    #[schemars(!default)]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[schemars(!default)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_190 {
    #[serde(default)]
    #[schemars(!default)]
    pub f0: A,
    #[serde(default)]
    #[schemars(!default)]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(!default)]
    pub f2: D,
    #[serde(default)]
    #[schemars(!default)]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[schemars(!default)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub struct W32_191 {
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    pub f2: D,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_192 {
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    pub f2: D,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub struct W32_193 {
    #[serde(default)]
    #[schemars(!default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(default)]
    #[schemars(!default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(!default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f2: D,
    #[serde(default)]
    #[schemars(!default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[schemars(!default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_194 {
    #[serde(default)]
    #[schemars(!default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f0: A,
    #[serde(default)]
    #[schemars(!default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(!default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f2: D,
    #[serde(default)]
    #[schemars(!default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[schemars(!default)]
    #[schemars(skip_serializing_if = "sif")]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
pub struct W32_195 {
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f0: A,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f2: D,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_196 {
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f0: A,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f1: Option<A>,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f2: D,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f3: Option<Option<A>>,
    #[serde(default)]
    #[schemars(!default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing_if)]
    pub f4: Box<Option<A>>,
}
#[derive(JsonSchema)]
#[serde(default = "mk_w")]
pub struct W32_mk {
    pub a: A,
    #[serde(skip_serializing_if = "sif")]
    pub b: Option<A>,
}
#[derive(JsonSchema)]
pub struct W32_197 {
    #[serde(skip)]
    pub a: A,
    #[serde(skip)]
    pub b: Option<A>,
    #[serde(default)]
    #[serde(skip)]
    pub c: A,
    #[serde(skip_serializing_if = "sif")]
    #[serde(skip)]
    pub d: A,
}
#[derive(JsonSchema)]
pub struct W32_198 {
    #[serde(skip_serializing)]
    pub a: A,
    #[serde(skip_serializing)]
    pub b: Option<A>,
    #[serde(default)]
    #[serde(skip_serializing)]
    pub c: A,
    #[serde(skip_serializing_if = "sif")]
    #[serde(skip_serializing)]
    pub d: A,
}
#[derive(JsonSchema)]
pub struct W32_199 {
    #[serde(skip_deserializing)]
    pub a: A,
    #[serde(skip_deserializing)]
    pub b: Option<A>,
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub c: A,
    #[serde(skip_serializing_if = "sif")]
    #[serde(skip_deserializing)]
    pub d: A,
}
#[derive(JsonSchema)]
pub struct W32_200 {
    #[schemars(with = "Option<A>")]
    pub a: A,
    #[schemars(with = "A")]
    pub b: Option<A>,
    #[schemars(schema_with = "sw1")]
    pub c: Option<A>,
    #[schemars(with = "D")]
    pub d: A,
}
#[derive(JsonSchema)]
pub struct W32_201 {
    #[serde(rename = "q")]
    pub a: Option<A>,
    #[serde(rename = "z")]
    pub b: A,
}
#[derive(JsonSchema)]
pub struct W32_202 {
    #[serde(rename(serialize = "sa", deserialize = "da"))]
    pub a: A,
    #[serde(rename(serialize = "sb", deserialize = "db"))]
    pub b: Option<A>,
}
#[derive(JsonSchema)]
pub struct W32_203 {
    #[serde(flatten)]
    pub a: InnerO,
    pub b: A,
}
#[derive(JsonSchema)]
pub struct W32_204 {
    #[serde(flatten)]
    pub a: Option<Inner1>,
    pub b: A,
}
#[derive(JsonSchema)]
pub struct W32_205 {
    #[serde(flatten)]
    #[schemars(required)]
    pub a: Option<Inner1>,
    pub b: A,
}
#[derive(JsonSchema)]
pub struct W32_206 {
    #[serde(flatten)]
    pub a: Inner1,
    pub b: Option<A>,
}
#[derive(JsonSchema)]
pub struct W32_207 {
    #[serde(flatten)]
    #[serde(default)]
    pub a: Inner1,
    pub b: Option<A>,
}
#[derive(JsonSchema)]
pub enum W32_208 {
    Va {
        #[serde(flatten)]
        a: Inner1,
        #[serde(default)]
        b: A,
    },
    Vb {
        #[serde(flatten)]
        a: Option<Inner1>,
        b: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_209 {
    Va {
        #[serde(flatten)]
        a: Inner1,
        #[serde(default)]
        b: A,
    },
    Vb {
        #[serde(flatten)]
        a: Option<Inner1>,
        b: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_210 {
    Va {
        #[serde(flatten)]
        a: Inner1,
        #[serde(default)]
        b: A,
    },
    Vb {
        #[serde(flatten)]
        a: Option<Inner1>,
        b: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_211 {
    Va {
        #[serde(flatten)]
        a: Inner1,
        #[serde(default)]
        b: A,
    },
    Vb {
        #[serde(flatten)]
        a: Option<Inner1>,
        b: A,
    },
}
#[derive(JsonSchema)]
pub struct W33_1 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
pub enum W33_2 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
pub enum W33_3 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_4 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_5 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_6 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
pub struct W33_7 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
pub enum W33_8 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
pub enum W33_9 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
pub enum W33_10 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "lowercase")]
pub enum W33_11 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_12 {
    #[serde(rename_all = "lowercase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "tg")]
pub enum W33_13 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "tg")]
pub enum W33_14 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "lowercase")]
#[serde(tag = "tg")]
pub enum W33_15 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_16 {
    #[serde(rename_all = "lowercase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_17 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_18 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "lowercase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_19 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_20 {
    #[serde(rename_all = "lowercase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
#[serde(untagged)]
pub enum W33_21 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
#[serde(untagged)]
pub enum W33_22 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "lowercase")]
#[serde(untagged)]
pub enum W33_23 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_24 {
    #[serde(rename_all = "lowercase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "lowercase")]
pub struct W33_25 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "lowercase")]
pub enum W33_26 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "lowercase")]
pub enum W33_27 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields = "lowercase")]
pub enum W33_28 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_29 {
    #[schemars(rename_all = "lowercase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "lowercase")]
#[serde(tag = "tg")]
pub enum W33_30 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "lowercase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_31 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "lowercase")]
#[serde(untagged)]
pub enum W33_32 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W33_33 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub enum W33_34 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub enum W33_35 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub enum W33_36 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "UPPERCASE")]
pub enum W33_37 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_38 {
    #[serde(rename_all = "UPPERCASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "tg")]
pub enum W33_39 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "tg")]
pub enum W33_40 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "UPPERCASE")]
#[serde(tag = "tg")]
pub enum W33_41 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_42 {
    #[serde(rename_all = "UPPERCASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_43 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_44 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "UPPERCASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_45 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_46 {
    #[serde(rename_all = "UPPERCASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
#[serde(untagged)]
pub enum W33_47 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
#[serde(untagged)]
pub enum W33_48 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "UPPERCASE")]
#[serde(untagged)]
pub enum W33_49 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_50 {
    #[serde(rename_all = "UPPERCASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "UPPERCASE")]
pub struct W33_51 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "UPPERCASE")]
pub enum W33_52 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "UPPERCASE")]
pub enum W33_53 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields = "UPPERCASE")]
pub enum W33_54 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_55 {
    #[schemars(rename_all = "UPPERCASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "UPPERCASE")]
#[serde(tag = "tg")]
pub enum W33_56 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "UPPERCASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_57 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "UPPERCASE")]
#[serde(untagged)]
pub enum W33_58 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
pub struct W33_59 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
pub enum W33_60 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
pub enum W33_61 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
pub enum W33_62 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "PascalCase")]
pub enum W33_63 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_64 {
    #[serde(rename_all = "PascalCase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "tg")]
pub enum W33_65 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "tg")]
pub enum W33_66 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "PascalCase")]
#[serde(tag = "tg")]
pub enum W33_67 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_68 {
    #[serde(rename_all = "PascalCase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_69 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_70 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "PascalCase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_71 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_72 {
    #[serde(rename_all = "PascalCase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
#[serde(untagged)]
pub enum W33_73 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
#[serde(untagged)]
pub enum W33_74 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "PascalCase")]
#[serde(untagged)]
pub enum W33_75 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_76 {
    #[serde(rename_all = "PascalCase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "PascalCase")]
pub struct W33_77 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "PascalCase")]
pub enum W33_78 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "PascalCase")]
pub enum W33_79 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields = "PascalCase")]
pub enum W33_80 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_81 {
    #[schemars(rename_all = "PascalCase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "PascalCase")]
#[serde(tag = "tg")]
pub enum W33_82 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "PascalCase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_83 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "PascalCase")]
#[serde(untagged)]
pub enum W33_84 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
pub struct W33_85 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
pub enum W33_86 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
pub enum W33_87 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
pub enum W33_88 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "camelCase")]
pub enum W33_89 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_90 {
    #[serde(rename_all = "camelCase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "tg")]
pub enum W33_91 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "tg")]
pub enum W33_92 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "camelCase")]
#[serde(tag = "tg")]
pub enum W33_93 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_94 {
    #[serde(rename_all = "camelCase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_95 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_96 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "camelCase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_97 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_98 {
    #[serde(rename_all = "camelCase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
#[serde(untagged)]
pub enum W33_99 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
#[serde(untagged)]
pub enum W33_100 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "camelCase")]
#[serde(untagged)]
pub enum W33_101 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_102 {
    #[serde(rename_all = "camelCase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "camelCase")]
pub struct W33_103 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "camelCase")]
pub enum W33_104 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "camelCase")]
pub enum W33_105 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields = "camelCase")]
pub enum W33_106 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_107 {
    #[schemars(rename_all = "camelCase")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "camelCase")]
#[serde(tag = "tg")]
pub enum W33_108 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "camelCase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_109 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "camelCase")]
#[serde(untagged)]
pub enum W33_110 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
pub struct W33_111 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
pub enum W33_112 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
pub enum W33_113 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
pub enum W33_114 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "snake_case")]
pub enum W33_115 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_116 {
    #[serde(rename_all = "snake_case")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "tg")]
pub enum W33_117 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "tg")]
pub enum W33_118 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "snake_case")]
#[serde(tag = "tg")]
pub enum W33_119 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_120 {
    #[serde(rename_all = "snake_case")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_121 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_122 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "snake_case")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_123 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_124 {
    #[serde(rename_all = "snake_case")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
#[serde(untagged)]
pub enum W33_125 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
#[serde(untagged)]
pub enum W33_126 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "snake_case")]
#[serde(untagged)]
pub enum W33_127 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_128 {
    #[serde(rename_all = "snake_case")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "snake_case")]
pub struct W33_129 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "snake_case")]
pub enum W33_130 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "snake_case")]
pub enum W33_131 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields = "snake_case")]
pub enum W33_132 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_133 {
    #[schemars(rename_all = "snake_case")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "snake_case")]
#[serde(tag = "tg")]
pub enum W33_134 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "snake_case")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_135 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "snake_case")]
#[serde(untagged)]
pub enum W33_136 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct W33_137 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum W33_138 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum W33_139 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum W33_140 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "SCREAMING_SNAKE_CASE")]
pub enum W33_141 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_142 {
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "tg")]
pub enum W33_143 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "tg")]
pub enum W33_144 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "tg")]
pub enum W33_145 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_146 {
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_147 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_148 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_149 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_150 {
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(untagged)]
pub enum W33_151 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(untagged)]
pub enum W33_152 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "SCREAMING_SNAKE_CASE")]
#[serde(untagged)]
pub enum W33_153 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_154 {
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct W33_155 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum W33_156 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum W33_157 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields = "SCREAMING_SNAKE_CASE")]
pub enum W33_158 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_159 {
    #[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "tg")]
pub enum W33_160 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_161 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(untagged)]
pub enum W33_162 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
pub struct W33_163 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
pub enum W33_164 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
pub enum W33_165 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
pub enum W33_166 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "kebab-case")]
pub enum W33_167 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_168 {
    #[serde(rename_all = "kebab-case")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "tg")]
pub enum W33_169 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "tg")]
pub enum W33_170 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "kebab-case")]
#[serde(tag = "tg")]
pub enum W33_171 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_172 {
    #[serde(rename_all = "kebab-case")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_173 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_174 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "kebab-case")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_175 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_176 {
    #[serde(rename_all = "kebab-case")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
#[serde(untagged)]
pub enum W33_177 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
#[serde(untagged)]
pub enum W33_178 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "kebab-case")]
#[serde(untagged)]
pub enum W33_179 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_180 {
    #[serde(rename_all = "kebab-case")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "kebab-case")]
pub struct W33_181 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "kebab-case")]
pub enum W33_182 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "kebab-case")]
pub enum W33_183 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields = "kebab-case")]
pub enum W33_184 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_185 {
    #[schemars(rename_all = "kebab-case")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "kebab-case")]
#[serde(tag = "tg")]
pub enum W33_186 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "kebab-case")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_187 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "kebab-case")]
#[serde(untagged)]
pub enum W33_188 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct W33_189 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum W33_190 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum W33_191 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum W33_192 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
pub enum W33_193 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_194 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "tg")]
pub enum W33_195 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "tg")]
pub enum W33_196 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "tg")]
pub enum W33_197 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_198 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_199 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_200 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_201 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_202 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(untagged)]
pub enum W33_203 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(untagged)]
pub enum W33_204 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
#[serde(untagged)]
pub enum W33_205 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_206 {
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct W33_207 {
    pub a: A,
    pub ab: A,
    pub foo_bar: A,
    pub foo_bar_baz: A,
    pub x1_y2: A,
    pub r#type: A,
    pub _lead: A,
    pub trail_: A,
    pub dbl__us: A,
    pub URL_part: A,
    pub fooBar: A,
    pub éé_à: A,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum W33_208 {
    A,
    Ab,
    FooBar,
    FooBarBaz,
    X1Y2,
    URLPart,
    Foo_Bar,
    ÉéÀ,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum W33_209 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields = "SCREAMING-KEBAB-CASE")]
pub enum W33_210 {
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
pub enum W33_211 {
    #[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
    FooBar {
        a: A,
        ab: A,
        foo_bar: A,
        foo_bar_baz: A,
        x1_y2: A,
        r#type: A,
        _lead: A,
        trail_: A,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "tg")]
pub enum W33_212 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_213 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(untagged)]
pub enum W33_214 {
    A(
        A,
    ),
    Ab(
        A,
    ),
    FooBar(
        A,
    ),
    FooBarBaz(
        A,
    ),
    X1Y2(
        A,
    ),
    URLPart(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
#[serde(rename_all_fields = "SCREAMING_SNAKE_CASE")]
pub enum W33_215 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "camelCase")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
#[serde(rename_all_fields = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "tg")]
pub enum W33_216 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "camelCase")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
#[serde(rename_all_fields = "SCREAMING_SNAKE_CASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_217 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "camelCase")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
#[serde(rename_all_fields = "SCREAMING_SNAKE_CASE")]
#[serde(untagged)]
pub enum W33_218 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "camelCase")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "lowercase", deserialize = "camelCase"))]
pub struct W33_219 {
    pub foo_bar: A,
    #[serde(rename = "X_y")]
    pub b_c: B,
    #[schemars(rename = "D e")]
    pub d_e: C,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "lowercase"))]
pub struct W33_220 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(deserialize = "lowercase"))]
pub struct W33_221 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "lowercase", deserialize = "camelCase"))]
pub enum W33_222 {
    FooBar,
    BcDe(
        A,
    ),
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "lowercase"))]
pub enum W33_223 {
    FooBar,
    EfGh {
        foo_bar: A,
    },
    #[serde(rename_all(serialize = "camelCase"))]
    IjKl {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "lowercase"))]
pub enum W33_224 {
    #[serde(rename_all(serialize = "camelCase", deserialize = "lowercase"))]
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
#[serde(rename_all_fields = "kebab-case")]
pub enum W33_225 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "snake_case")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
#[serde(rename_all_fields = "kebab-case")]
#[serde(tag = "tg")]
pub enum W33_226 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "snake_case")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
#[serde(rename_all_fields = "kebab-case")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_227 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "snake_case")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
#[serde(rename_all_fields = "kebab-case")]
#[serde(untagged)]
pub enum W33_228 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "snake_case")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "UPPERCASE", deserialize = "snake_case"))]
pub struct W33_229 {
    pub foo_bar: A,
    #[serde(rename = "X_y")]
    pub b_c: B,
    #[schemars(rename = "D e")]
    pub d_e: C,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "UPPERCASE"))]
pub struct W33_230 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(deserialize = "UPPERCASE"))]
pub struct W33_231 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "UPPERCASE", deserialize = "snake_case"))]
pub enum W33_232 {
    FooBar,
    BcDe(
        A,
    ),
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "UPPERCASE"))]
pub enum W33_233 {
    FooBar,
    EfGh {
        foo_bar: A,
    },
    #[serde(rename_all(serialize = "snake_case"))]
    IjKl {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "UPPERCASE"))]
pub enum W33_234 {
    #[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
pub enum W33_235 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "tg")]
pub enum W33_236 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_237 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "PascalCase")]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
#[serde(untagged)]
pub enum W33_238 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "PascalCase", deserialize = "SCREAMING_SNAKE_CASE"))]
pub struct W33_239 {
    pub foo_bar: A,
    #[serde(rename = "X_y")]
    pub b_c: B,
    #[schemars(rename = "D e")]
    pub d_e: C,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "PascalCase"))]
pub struct W33_240 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(deserialize = "PascalCase"))]
pub struct W33_241 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "PascalCase", deserialize = "SCREAMING_SNAKE_CASE"))]
pub enum W33_242 {
    FooBar,
    BcDe(
        A,
    ),
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "PascalCase"))]
pub enum W33_243 {
    FooBar,
    EfGh {
        foo_bar: A,
    },
    #[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
    IjKl {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "PascalCase"))]
pub enum W33_244 {
    #[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "PascalCase"))]
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
#[serde(rename_all_fields = "lowercase")]
pub enum W33_245 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "kebab-case")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
#[serde(rename_all_fields = "lowercase")]
#[serde(tag = "tg")]
pub enum W33_246 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "kebab-case")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
#[serde(rename_all_fields = "lowercase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_247 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "kebab-case")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
#[serde(rename_all_fields = "lowercase")]
#[serde(untagged)]
pub enum W33_248 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "kebab-case")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "camelCase", deserialize = "kebab-case"))]
pub struct W33_249 {
    pub foo_bar: A,
    #[serde(rename = "X_y")]
    pub b_c: B,
    #[schemars(rename = "D e")]
    pub d_e: C,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "camelCase"))]
pub struct W33_250 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(deserialize = "camelCase"))]
pub struct W33_251 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "camelCase", deserialize = "kebab-case"))]
pub enum W33_252 {
    FooBar,
    BcDe(
        A,
    ),
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "camelCase"))]
pub enum W33_253 {
    FooBar,
    EfGh {
        foo_bar: A,
    },
    #[serde(rename_all(serialize = "kebab-case"))]
    IjKl {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "camelCase"))]
pub enum W33_254 {
    #[serde(rename_all(serialize = "kebab-case", deserialize = "camelCase"))]
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
#[serde(rename_all_fields = "UPPERCASE")]
pub enum W33_255 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
#[serde(rename_all_fields = "UPPERCASE")]
#[serde(tag = "tg")]
pub enum W33_256 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
#[serde(rename_all_fields = "UPPERCASE")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_257 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
#[serde(rename_all_fields = "UPPERCASE")]
#[serde(untagged)]
pub enum W33_258 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "snake_case", deserialize = "SCREAMING-KEBAB-CASE"))]
pub struct W33_259 {
    pub foo_bar: A,
    #[serde(rename = "X_y")]
    pub b_c: B,
    #[schemars(rename = "D e")]
    pub d_e: C,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "snake_case"))]
pub struct W33_260 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(deserialize = "snake_case"))]
pub struct W33_261 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "snake_case", deserialize = "SCREAMING-KEBAB-CASE"))]
pub enum W33_262 {
    FooBar,
    BcDe(
        A,
    ),
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "snake_case"))]
pub enum W33_263 {
    FooBar,
    EfGh {
        foo_bar: A,
    },
    #[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE"))]
    IjKl {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "snake_case"))]
pub enum W33_264 {
    #[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "snake_case"))]
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(rename_all_fields = "PascalCase")]
pub enum W33_265 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "lowercase")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(rename_all_fields = "PascalCase")]
#[serde(tag = "tg")]
pub enum W33_266 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "lowercase")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(rename_all_fields = "PascalCase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_267 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "lowercase")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(rename_all_fields = "PascalCase")]
#[serde(untagged)]
pub enum W33_268 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "lowercase")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "lowercase"))]
pub struct W33_269 {
    pub foo_bar: A,
    #[serde(rename = "X_y")]
    pub b_c: B,
    #[schemars(rename = "D e")]
    pub d_e: C,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
pub struct W33_270 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(deserialize = "SCREAMING_SNAKE_CASE"))]
pub struct W33_271 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "lowercase"))]
pub enum W33_272 {
    FooBar,
    BcDe(
        A,
    ),
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "SCREAMING_SNAKE_CASE"))]
pub enum W33_273 {
    FooBar,
    EfGh {
        foo_bar: A,
    },
    #[serde(rename_all(serialize = "lowercase"))]
    IjKl {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "SCREAMING_SNAKE_CASE"))]
pub enum W33_274 {
    #[serde(rename_all(serialize = "lowercase", deserialize = "SCREAMING_SNAKE_CASE"))]
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
#[serde(rename_all_fields = "camelCase")]
pub enum W33_275 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "UPPERCASE")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
#[serde(rename_all_fields = "camelCase")]
#[serde(tag = "tg")]
pub enum W33_276 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "UPPERCASE")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
#[serde(rename_all_fields = "camelCase")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_277 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "UPPERCASE")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
#[serde(rename_all_fields = "camelCase")]
#[serde(untagged)]
pub enum W33_278 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "UPPERCASE")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub struct W33_279 {
    pub foo_bar: A,
    #[serde(rename = "X_y")]
    pub b_c: B,
    #[schemars(rename = "D e")]
    pub d_e: C,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "kebab-case"))]
pub struct W33_280 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(deserialize = "kebab-case"))]
pub struct W33_281 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
pub enum W33_282 {
    FooBar,
    BcDe(
        A,
    ),
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "kebab-case"))]
pub enum W33_283 {
    FooBar,
    EfGh {
        foo_bar: A,
    },
    #[serde(rename_all(serialize = "UPPERCASE"))]
    IjKl {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "kebab-case"))]
pub enum W33_284 {
    #[serde(rename_all(serialize = "UPPERCASE", deserialize = "kebab-case"))]
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(rename_all_fields = "snake_case")]
pub enum W33_285 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "PascalCase")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(rename_all_fields = "snake_case")]
#[serde(tag = "tg")]
pub enum W33_286 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "PascalCase")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(rename_all_fields = "snake_case")]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_287 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "PascalCase")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(rename_all_fields = "snake_case")]
#[serde(untagged)]
pub enum W33_288 {
    FooBar {
        foo_bar: A,
        #[serde(rename = "X_y")]
        b_c: B,
    },
    #[serde(rename_all = "PascalCase")]
    BarBaz {
        foo_bar: A,
    },
    #[serde(rename = "q q")]
    QuxQ,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "PascalCase"))]
pub struct W33_289 {
    pub foo_bar: A,
    #[serde(rename = "X_y")]
    pub b_c: B,
    #[schemars(rename = "D e")]
    pub d_e: C,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE"))]
pub struct W33_290 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(deserialize = "SCREAMING-KEBAB-CASE"))]
pub struct W33_291 {
    pub foo_bar: A,
    pub b_c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "PascalCase"))]
pub enum W33_292 {
    FooBar,
    BcDe(
        A,
    ),
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "SCREAMING-KEBAB-CASE"))]
pub enum W33_293 {
    FooBar,
    EfGh {
        foo_bar: A,
    },
    #[serde(rename_all(serialize = "PascalCase"))]
    IjKl {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(deserialize = "SCREAMING-KEBAB-CASE"))]
pub enum W33_294 {
    #[serde(rename_all(serialize = "PascalCase", deserialize = "SCREAMING-KEBAB-CASE"))]
    EfGh {
        foo_bar: A,
    },
}
#[derive(JsonSchema)]
pub struct W33_295 {
    #[serde(rename = "n")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_296 {
    #[serde(rename = "n")]
    Va(
        A,
    ),
    #[serde(rename = "n2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_297 {
    #[serde(rename = "n")]
    Va(
        A,
    ),
    #[serde(rename = "n2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_298 {
    #[serde(rename = "n")]
    Va(
        A,
    ),
    #[serde(rename = "n2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_299 {
    #[serde(rename = "n")]
    Va(
        A,
    ),
    #[serde(rename = "n2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "n")]
pub enum W33_300 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "nt")]
#[serde(content = "n")]
pub enum W33_301 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "n")]
#[schemars(content = "nc")]
pub enum W33_302 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_303 {
    #[serde(rename = "N m")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_304 {
    #[serde(rename = "N m")]
    Va(
        A,
    ),
    #[serde(rename = "N m2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_305 {
    #[serde(rename = "N m")]
    Va(
        A,
    ),
    #[serde(rename = "N m2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_306 {
    #[serde(rename = "N m")]
    Va(
        A,
    ),
    #[serde(rename = "N m2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_307 {
    #[serde(rename = "N m")]
    Va(
        A,
    ),
    #[serde(rename = "N m2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "N m")]
pub enum W33_308 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "N mt")]
#[serde(content = "N m")]
pub enum W33_309 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "N m")]
#[schemars(content = "N mc")]
pub enum W33_310 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_311 {
    #[serde(rename = "é")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_312 {
    #[serde(rename = "é")]
    Va(
        A,
    ),
    #[serde(rename = "é2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_313 {
    #[serde(rename = "é")]
    Va(
        A,
    ),
    #[serde(rename = "é2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_314 {
    #[serde(rename = "é")]
    Va(
        A,
    ),
    #[serde(rename = "é2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_315 {
    #[serde(rename = "é")]
    Va(
        A,
    ),
    #[serde(rename = "é2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "é")]
pub enum W33_316 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "ét")]
#[serde(content = "é")]
pub enum W33_317 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "é")]
#[schemars(content = "éc")]
pub enum W33_318 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_319 {
    #[serde(rename = "\"q\"")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_320 {
    #[serde(rename = "\"q\"")]
    Va(
        A,
    ),
    #[serde(rename = "\"q\"2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_321 {
    #[serde(rename = "\"q\"")]
    Va(
        A,
    ),
    #[serde(rename = "\"q\"2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_322 {
    #[serde(rename = "\"q\"")]
    Va(
        A,
    ),
    #[serde(rename = "\"q\"2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_323 {
    #[serde(rename = "\"q\"")]
    Va(
        A,
    ),
    #[serde(rename = "\"q\"2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "\"q\"")]
pub enum W33_324 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "\"q\"t")]
#[serde(content = "\"q\"")]
pub enum W33_325 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "\"q\"")]
#[schemars(content = "\"q\"c")]
pub enum W33_326 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_327 {
    #[serde(rename = "a\\b")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_328 {
    #[serde(rename = "a\\b")]
    Va(
        A,
    ),
    #[serde(rename = "a\\b2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_329 {
    #[serde(rename = "a\\b")]
    Va(
        A,
    ),
    #[serde(rename = "a\\b2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_330 {
    #[serde(rename = "a\\b")]
    Va(
        A,
    ),
    #[serde(rename = "a\\b2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_331 {
    #[serde(rename = "a\\b")]
    Va(
        A,
    ),
    #[serde(rename = "a\\b2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "a\\b")]
pub enum W33_332 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "a\\bt")]
#[serde(content = "a\\b")]
pub enum W33_333 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "a\\b")]
#[schemars(content = "a\\bc")]
pub enum W33_334 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_335 {
    #[serde(rename = "a/b~c")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_336 {
    #[serde(rename = "a/b~c")]
    Va(
        A,
    ),
    #[serde(rename = "a/b~c2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_337 {
    #[serde(rename = "a/b~c")]
    Va(
        A,
    ),
    #[serde(rename = "a/b~c2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_338 {
    #[serde(rename = "a/b~c")]
    Va(
        A,
    ),
    #[serde(rename = "a/b~c2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_339 {
    #[serde(rename = "a/b~c")]
    Va(
        A,
    ),
    #[serde(rename = "a/b~c2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "a/b~c")]
pub enum W33_340 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "a/b~ct")]
#[serde(content = "a/b~c")]
pub enum W33_341 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "a/b~c")]
#[schemars(content = "a/b~cc")]
pub enum W33_342 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_343 {
    #[serde(rename = "$ref")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_344 {
    #[serde(rename = "$ref")]
    Va(
        A,
    ),
    #[serde(rename = "$ref2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_345 {
    #[serde(rename = "$ref")]
    Va(
        A,
    ),
    #[serde(rename = "$ref2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_346 {
    #[serde(rename = "$ref")]
    Va(
        A,
    ),
    #[serde(rename = "$ref2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_347 {
    #[serde(rename = "$ref")]
    Va(
        A,
    ),
    #[serde(rename = "$ref2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "$ref")]
pub enum W33_348 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "$reft")]
#[serde(content = "$ref")]
pub enum W33_349 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "$ref")]
#[schemars(content = "$refc")]
pub enum W33_350 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_351 {
    #[serde(rename = "type")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_352 {
    #[serde(rename = "type")]
    Va(
        A,
    ),
    #[serde(rename = "type2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_353 {
    #[serde(rename = "type")]
    Va(
        A,
    ),
    #[serde(rename = "type2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_354 {
    #[serde(rename = "type")]
    Va(
        A,
    ),
    #[serde(rename = "type2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_355 {
    #[serde(rename = "type")]
    Va(
        A,
    ),
    #[serde(rename = "type2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "type")]
pub enum W33_356 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "typet")]
#[serde(content = "type")]
pub enum W33_357 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "type")]
#[schemars(content = "typec")]
pub enum W33_358 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_359 {
    #[serde(rename = "properties")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_360 {
    #[serde(rename = "properties")]
    Va(
        A,
    ),
    #[serde(rename = "properties2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_361 {
    #[serde(rename = "properties")]
    Va(
        A,
    ),
    #[serde(rename = "properties2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_362 {
    #[serde(rename = "properties")]
    Va(
        A,
    ),
    #[serde(rename = "properties2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_363 {
    #[serde(rename = "properties")]
    Va(
        A,
    ),
    #[serde(rename = "properties2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "properties")]
pub enum W33_364 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "propertiest")]
#[serde(content = "properties")]
pub enum W33_365 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "properties")]
#[schemars(content = "propertiesc")]
pub enum W33_366 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_367 {
    #[serde(rename = "")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_368 {
    #[serde(rename = "")]
    Va(
        A,
    ),
    #[serde(rename = "2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_369 {
    #[serde(rename = "")]
    Va(
        A,
    ),
    #[serde(rename = "2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_370 {
    #[serde(rename = "")]
    Va(
        A,
    ),
    #[serde(rename = "2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_371 {
    #[serde(rename = "")]
    Va(
        A,
    ),
    #[serde(rename = "2")]
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_372 {
    #[serde(rename = "{x}")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_373 {
    #[serde(rename = "{x}")]
    Va(
        A,
    ),
    #[serde(rename = "{x}2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_374 {
    #[serde(rename = "{x}")]
    Va(
        A,
    ),
    #[serde(rename = "{x}2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_375 {
    #[serde(rename = "{x}")]
    Va(
        A,
    ),
    #[serde(rename = "{x}2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_376 {
    #[serde(rename = "{x}")]
    Va(
        A,
    ),
    #[serde(rename = "{x}2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "{x}")]
pub enum W33_377 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "{x}t")]
#[serde(content = "{x}")]
pub enum W33_378 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "{x}")]
#[schemars(content = "{x}c")]
pub enum W33_379 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_380 {
    #[serde(rename = "%41")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_381 {
    #[serde(rename = "%41")]
    Va(
        A,
    ),
    #[serde(rename = "%412")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_382 {
    #[serde(rename = "%41")]
    Va(
        A,
    ),
    #[serde(rename = "%412")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_383 {
    #[serde(rename = "%41")]
    Va(
        A,
    ),
    #[serde(rename = "%412")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_384 {
    #[serde(rename = "%41")]
    Va(
        A,
    ),
    #[serde(rename = "%412")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "%41")]
pub enum W33_385 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "%41t")]
#[serde(content = "%41")]
pub enum W33_386 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "%41")]
#[schemars(content = "%41c")]
pub enum W33_387 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_388 {
    #[serde(rename = "line\nbreak")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_389 {
    #[serde(rename = "line\nbreak")]
    Va(
        A,
    ),
    #[serde(rename = "line\nbreak2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_390 {
    #[serde(rename = "line\nbreak")]
    Va(
        A,
    ),
    #[serde(rename = "line\nbreak2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_391 {
    #[serde(rename = "line\nbreak")]
    Va(
        A,
    ),
    #[serde(rename = "line\nbreak2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_392 {
    #[serde(rename = "line\nbreak")]
    Va(
        A,
    ),
    #[serde(rename = "line\nbreak2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "line\nbreak")]
pub enum W33_393 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "line\nbreakt")]
#[serde(content = "line\nbreak")]
pub enum W33_394 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "line\nbreak")]
#[schemars(content = "line\nbreakc")]
pub enum W33_395 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_396 {
    #[serde(rename = "f0")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_397 {
    #[serde(rename = "f0")]
    Va(
        A,
    ),
    #[serde(rename = "f02")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_398 {
    #[serde(rename = "f0")]
    Va(
        A,
    ),
    #[serde(rename = "f02")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_399 {
    #[serde(rename = "f0")]
    Va(
        A,
    ),
    #[serde(rename = "f02")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_400 {
    #[serde(rename = "f0")]
    Va(
        A,
    ),
    #[serde(rename = "f02")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "f0")]
pub enum W33_401 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "f0t")]
#[serde(content = "f0")]
pub enum W33_402 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "f0")]
#[schemars(content = "f0c")]
pub enum W33_403 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_404 {
    #[serde(rename = " lead")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_405 {
    #[serde(rename = " lead")]
    Va(
        A,
    ),
    #[serde(rename = " lead2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_406 {
    #[serde(rename = " lead")]
    Va(
        A,
    ),
    #[serde(rename = " lead2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_407 {
    #[serde(rename = " lead")]
    Va(
        A,
    ),
    #[serde(rename = " lead2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_408 {
    #[serde(rename = " lead")]
    Va(
        A,
    ),
    #[serde(rename = " lead2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = " lead")]
pub enum W33_409 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = " leadt")]
#[serde(content = " lead")]
pub enum W33_410 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = " lead")]
#[schemars(content = " leadc")]
pub enum W33_411 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_412 {
    #[serde(rename = "trail ")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_413 {
    #[serde(rename = "trail ")]
    Va(
        A,
    ),
    #[serde(rename = "trail 2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_414 {
    #[serde(rename = "trail ")]
    Va(
        A,
    ),
    #[serde(rename = "trail 2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_415 {
    #[serde(rename = "trail ")]
    Va(
        A,
    ),
    #[serde(rename = "trail 2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_416 {
    #[serde(rename = "trail ")]
    Va(
        A,
    ),
    #[serde(rename = "trail 2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "trail ")]
pub enum W33_417 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "trail t")]
#[serde(content = "trail ")]
pub enum W33_418 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "trail ")]
#[schemars(content = "trail c")]
pub enum W33_419 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_420 {
    #[serde(rename = "\t")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_421 {
    #[serde(rename = "\t")]
    Va(
        A,
    ),
    #[serde(rename = "\t2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_422 {
    #[serde(rename = "\t")]
    Va(
        A,
    ),
    #[serde(rename = "\t2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_423 {
    #[serde(rename = "\t")]
    Va(
        A,
    ),
    #[serde(rename = "\t2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_424 {
    #[serde(rename = "\t")]
    Va(
        A,
    ),
    #[serde(rename = "\t2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "\t")]
pub enum W33_425 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "\tt")]
#[serde(content = "\t")]
pub enum W33_426 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "\t")]
#[schemars(content = "\tc")]
pub enum W33_427 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_428 {
    #[serde(rename = "  ")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_429 {
    #[serde(rename = "  ")]
    Va(
        A,
    ),
    #[serde(rename = "  2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_430 {
    #[serde(rename = "  ")]
    Va(
        A,
    ),
    #[serde(rename = "  2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_431 {
    #[serde(rename = "  ")]
    Va(
        A,
    ),
    #[serde(rename = "  2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_432 {
    #[serde(rename = "  ")]
    Va(
        A,
    ),
    #[serde(rename = "  2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "  ")]
pub enum W33_433 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "  t")]
#[serde(content = "  ")]
pub enum W33_434 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "  ")]
#[schemars(content = "  c")]
pub enum W33_435 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_436 {
    #[serde(rename = "UPPER")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_437 {
    #[serde(rename = "UPPER")]
    Va(
        A,
    ),
    #[serde(rename = "UPPER2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_438 {
    #[serde(rename = "UPPER")]
    Va(
        A,
    ),
    #[serde(rename = "UPPER2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_439 {
    #[serde(rename = "UPPER")]
    Va(
        A,
    ),
    #[serde(rename = "UPPER2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_440 {
    #[serde(rename = "UPPER")]
    Va(
        A,
    ),
    #[serde(rename = "UPPER2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "UPPER")]
pub enum W33_441 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "UPPERt")]
#[serde(content = "UPPER")]
pub enum W33_442 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "UPPER")]
#[schemars(content = "UPPERc")]
pub enum W33_443 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_444 {
    #[serde(rename = "a  b")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_445 {
    #[serde(rename = "a  b")]
    Va(
        A,
    ),
    #[serde(rename = "a  b2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_446 {
    #[serde(rename = "a  b")]
    Va(
        A,
    ),
    #[serde(rename = "a  b2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_447 {
    #[serde(rename = "a  b")]
    Va(
        A,
    ),
    #[serde(rename = "a  b2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_448 {
    #[serde(rename = "a  b")]
    Va(
        A,
    ),
    #[serde(rename = "a  b2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "a  b")]
pub enum W33_449 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "a  bt")]
#[serde(content = "a  b")]
pub enum W33_450 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "a  b")]
#[schemars(content = "a  bc")]
pub enum W33_451 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_452 {
    #[serde(rename = "\u{a0}n")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_453 {
    #[serde(rename = "\u{a0}n")]
    Va(
        A,
    ),
    #[serde(rename = "\u{a0}n2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_454 {
    #[serde(rename = "\u{a0}n")]
    Va(
        A,
    ),
    #[serde(rename = "\u{a0}n2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_455 {
    #[serde(rename = "\u{a0}n")]
    Va(
        A,
    ),
    #[serde(rename = "\u{a0}n2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_456 {
    #[serde(rename = "\u{a0}n")]
    Va(
        A,
    ),
    #[serde(rename = "\u{a0}n2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "\u{a0}n")]
pub enum W33_457 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "\u{a0}nt")]
#[serde(content = "\u{a0}n")]
pub enum W33_458 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "\u{a0}n")]
#[schemars(content = "\u{a0}nc")]
pub enum W33_459 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_460 {
    #[serde(rename = "_")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_461 {
    #[serde(rename = "_")]
    Va(
        A,
    ),
    #[serde(rename = "_2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_462 {
    #[serde(rename = "_")]
    Va(
        A,
    ),
    #[serde(rename = "_2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_463 {
    #[serde(rename = "_")]
    Va(
        A,
    ),
    #[serde(rename = "_2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_464 {
    #[serde(rename = "_")]
    Va(
        A,
    ),
    #[serde(rename = "_2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "_")]
pub enum W33_465 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "_t")]
#[serde(content = "_")]
pub enum W33_466 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "_")]
#[schemars(content = "_c")]
pub enum W33_467 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_468 {
    #[serde(rename = "r#type")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_469 {
    #[serde(rename = "r#type")]
    Va(
        A,
    ),
    #[serde(rename = "r#type2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_470 {
    #[serde(rename = "r#type")]
    Va(
        A,
    ),
    #[serde(rename = "r#type2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_471 {
    #[serde(rename = "r#type")]
    Va(
        A,
    ),
    #[serde(rename = "r#type2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_472 {
    #[serde(rename = "r#type")]
    Va(
        A,
    ),
    #[serde(rename = "r#type2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "r#type")]
pub enum W33_473 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "r#typet")]
#[serde(content = "r#type")]
pub enum W33_474 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "r#type")]
#[schemars(content = "r#typec")]
pub enum W33_475 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_476 {
    #[serde(rename = "İ")]
    pub f0: A,
    pub f1: B,
}
#[derive(JsonSchema)]
pub enum W33_477 {
    #[serde(rename = "İ")]
    Va(
        A,
    ),
    #[serde(rename = "İ2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_478 {
    #[serde(rename = "İ")]
    Va(
        A,
    ),
    #[serde(rename = "İ2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_479 {
    #[serde(rename = "İ")]
    Va(
        A,
    ),
    #[serde(rename = "İ2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_480 {
    #[serde(rename = "İ")]
    Va(
        A,
    ),
    #[serde(rename = "İ2")]
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "İ")]
pub enum W33_481 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "İt")]
#[serde(content = "İ")]
pub enum W33_482 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[schemars(tag = "İ")]
#[schemars(content = "İc")]
pub enum W33_483 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W33_484 {
    #[serde(rename(serialize = "sx", deserialize = "dx"))]
    pub a: A,
    pub c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W33_485 {
    #[schemars(rename(serialize = "sx", deserialize = "dx"))]
    pub a: A,
    pub c: B,
}
#[derive(JsonSchema)]
pub struct W33_486 {
    #[serde(rename = "zz")]
    #[schemars(rename(serialize = "sx", deserialize = "dx"))]
    pub a: A,
    pub c: B,
}
#[derive(JsonSchema)]
pub enum W33_487 {
    #[serde(rename(serialize = "sx", deserialize = "dx"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(serialize = "sx", deserialize = "dx"))]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_488 {
    #[serde(rename(serialize = "sx", deserialize = "dx"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(serialize = "sx", deserialize = "dx"))]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_489 {
    #[serde(rename(serialize = "sx", deserialize = "dx"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(serialize = "sx", deserialize = "dx"))]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_490 {
    #[serde(rename(serialize = "sx", deserialize = "dx"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(serialize = "sx", deserialize = "dx"))]
        a: A,
    },
}
#[derive(JsonSchema)]
pub struct W33_491 {
    #[serde(rename(serialize = "sx"))]
    pub a: A,
    pub c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W33_492 {
    #[schemars(rename(serialize = "sx"))]
    pub a: A,
    pub c: B,
}
#[derive(JsonSchema)]
pub struct W33_493 {
    #[serde(rename = "zz")]
    #[schemars(rename(serialize = "sx"))]
    pub a: A,
    pub c: B,
}
#[derive(JsonSchema)]
pub enum W33_494 {
    #[serde(rename(serialize = "sx"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(serialize = "sx"))]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_495 {
    #[serde(rename(serialize = "sx"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(serialize = "sx"))]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_496 {
    #[serde(rename(serialize = "sx"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(serialize = "sx"))]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_497 {
    #[serde(rename(serialize = "sx"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(serialize = "sx"))]
        a: A,
    },
}
#[derive(JsonSchema)]
pub struct W33_498 {
    #[serde(rename(deserialize = "dx"))]
    pub a: A,
    pub c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W33_499 {
    #[schemars(rename(deserialize = "dx"))]
    pub a: A,
    pub c: B,
}
#[derive(JsonSchema)]
pub struct W33_500 {
    #[serde(rename = "zz")]
    #[schemars(rename(deserialize = "dx"))]
    pub a: A,
    pub c: B,
}
#[derive(JsonSchema)]
pub enum W33_501 {
    #[serde(rename(deserialize = "dx"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(deserialize = "dx"))]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_502 {
    #[serde(rename(deserialize = "dx"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(deserialize = "dx"))]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_503 {
    #[serde(rename(deserialize = "dx"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(deserialize = "dx"))]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_504 {
    #[serde(rename(deserialize = "dx"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(deserialize = "dx"))]
        a: A,
    },
}
#[derive(JsonSchema)]
pub struct W33_505 {
    #[serde(rename(deserialize = "b", serialize = "q"))]
    pub a: A,
    pub c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W33_506 {
    #[schemars(rename(deserialize = "b", serialize = "q"))]
    pub a: A,
    pub c: B,
}
#[derive(JsonSchema)]
pub struct W33_507 {
    #[serde(rename = "zz")]
    #[schemars(rename(deserialize = "b", serialize = "q"))]
    pub a: A,
    pub c: B,
}
#[derive(JsonSchema)]
pub enum W33_508 {
    #[serde(rename(deserialize = "b", serialize = "q"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(deserialize = "b", serialize = "q"))]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W33_509 {
    #[serde(rename(deserialize = "b", serialize = "q"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(deserialize = "b", serialize = "q"))]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W33_510 {
    #[serde(rename(deserialize = "b", serialize = "q"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(deserialize = "b", serialize = "q"))]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W33_511 {
    #[serde(rename(deserialize = "b", serialize = "q"))]
    Va(
        A,
    ),
    #[serde(rename(serialize = "us", deserialize = "ud"))]
    Vb,
    Vc {
        #[serde(rename(deserialize = "b", serialize = "q"))]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
#[schemars(rename_all = "PascalCase")]
pub struct W33_512 {
    #[serde(rename = "sn")]
    #[schemars(rename = "xn")]
    pub a: A,
    #[serde(rename = "sn2")]
    #[schemars(!rename)]
    pub c: B,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
#[schemars(!rename_all)]
pub struct W33_513 {
    pub a_b: A,
}
#[derive(JsonSchema)]
#[serde(tag = "x")]
#[schemars(tag = "y")]
pub enum W33_514 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "x")]
#[serde(content = "c")]
#[schemars(content = "y")]
pub enum W33_515 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(!untagged)]
pub enum W33_516 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[serde(tag = "x")]
#[schemars(!tag)]
pub enum W33_517 {
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub enum W34_1 {
    U,
}
#[derive(JsonSchema)]
pub enum W34_2 {
    N(
        A,
    ),
    #[serde(untagged)]
    U,
}
#[derive(JsonSchema)]
pub enum W34_3 {
    N(
        A,
    ),
    /// Docs.
    U,
}
#[derive(JsonSchema)]
pub enum W34_4 {
    N(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W34_5 {
    U,
    #[serde(untagged)]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W34_6 {
    U,
    /// Docs.
    N(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W34_7 {
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_8 {
    U,
    #[serde(untagged)]
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_9 {
    U,
    /// Docs.
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_10 {
    T0(

    ),
}
#[derive(JsonSchema)]
pub enum W34_11 {
    U,
    #[serde(untagged)]
    T0(

    ),
}
#[derive(JsonSchema)]
pub enum W34_12 {
    U,
    /// Docs.
    T0(

    ),
}
#[derive(JsonSchema)]
pub enum W34_13 {
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
pub enum W34_14 {
    U,
    #[serde(untagged)]
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
pub enum W34_15 {
    U,
    /// Docs.
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
pub enum W34_16 {
    S0 {

    },
}
#[derive(JsonSchema)]
pub enum W34_17 {
    U,
    #[serde(untagged)]
    S0 {

    },
}
#[derive(JsonSchema)]
pub enum W34_18 {
    U,
    /// Docs.
    S0 {

    },
}
#[derive(JsonSchema)]
pub enum W34_19 {
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
pub enum W34_20 {
    U,
    #[serde(untagged)]
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
pub enum W34_21 {
    U,
    /// Docs.
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
pub enum W34_22 {
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
pub enum W34_23 {
    U,
    #[serde(untagged)]
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
pub enum W34_24 {
    U,
    /// Docs.
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
pub enum W34_25 {
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W34_26 {
    U,
    #[serde(untagged)]
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W34_27 {
    U,
    /// Docs.
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W34_28 {
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
pub enum W34_29 {
    U,
    #[serde(untagged)]
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
pub enum W34_30 {
    U,
    /// Docs.
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
pub enum W34_31 {
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_32 {
    U,
    #[serde(untagged)]
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_33 {
    U,
    /// Docs.
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_34 {
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W34_35 {
    U,
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_36 {
    U,
    T0(

    ),
}
#[derive(JsonSchema)]
pub enum W34_37 {
    U,
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
pub enum W34_38 {
    U,
    S0 {

    },
}
#[derive(JsonSchema)]
pub enum W34_39 {
    U,
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
pub enum W34_40 {
    U,
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
pub enum W34_41 {
    U,
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W34_42 {
    U,
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
pub enum W34_43 {
    U,
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_44 {
    N(
        A,
    ),
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_45 {
    N(
        A,
    ),
    T0(

    ),
}
#[derive(JsonSchema)]
pub enum W34_46 {
    N(
        A,
    ),
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
pub enum W34_47 {
    N(
        A,
    ),
    S0 {

    },
}
#[derive(JsonSchema)]
pub enum W34_48 {
    N(
        A,
    ),
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
pub enum W34_49 {
    N(
        A,
    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
pub enum W34_50 {
    N(
        A,
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W34_51 {
    N(
        A,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
pub enum W34_52 {
    N(
        A,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_53 {
    T(
        A,
        B,
    ),
    T0(

    ),
}
#[derive(JsonSchema)]
pub enum W34_54 {
    T(
        A,
        B,
    ),
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
pub enum W34_55 {
    T(
        A,
        B,
    ),
    S0 {

    },
}
#[derive(JsonSchema)]
pub enum W34_56 {
    T(
        A,
        B,
    ),
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
pub enum W34_57 {
    T(
        A,
        B,
    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
pub enum W34_58 {
    T(
        A,
        B,
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W34_59 {
    T(
        A,
        B,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
pub enum W34_60 {
    T(
        A,
        B,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_61 {
    T0(

    ),
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
pub enum W34_62 {
    T0(

    ),
    S0 {

    },
}
#[derive(JsonSchema)]
pub enum W34_63 {
    T0(

    ),
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
pub enum W34_64 {
    T0(

    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
pub enum W34_65 {
    T0(

    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W34_66 {
    T0(

    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
pub enum W34_67 {
    T0(

    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_68 {
    S {
        a: A,
        b: Option<A>,
    },
    S0 {

    },
}
#[derive(JsonSchema)]
pub enum W34_69 {
    S {
        a: A,
        b: Option<A>,
    },
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
pub enum W34_70 {
    S {
        a: A,
        b: Option<A>,
    },
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
pub enum W34_71 {
    S {
        a: A,
        b: Option<A>,
    },
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W34_72 {
    S {
        a: A,
        b: Option<A>,
    },
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
pub enum W34_73 {
    S {
        a: A,
        b: Option<A>,
    },
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_74 {
    S0 {

    },
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
pub enum W34_75 {
    S0 {

    },
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
pub enum W34_76 {
    S0 {

    },
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W34_77 {
    S0 {

    },
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
pub enum W34_78 {
    S0 {

    },
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_79 {
    NO(
        Option<A>,
    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
pub enum W34_80 {
    NO(
        Option<A>,
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W34_81 {
    NO(
        Option<A>,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
pub enum W34_82 {
    NO(
        Option<A>,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_83 {
    NU(
        (),
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W34_84 {
    NU(
        (),
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
pub enum W34_85 {
    NU(
        (),
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_86 {
    NI(
        Inner1,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
pub enum W34_87 {
    NI(
        Inner1,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_88 {
    NB(
        TT,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_89 {
    U,
    N(
        A,
    ),
    T(
        A,
        B,
    ),
    T0(

    ),
    S {
        a: A,
        b: Option<A>,
    },
    S0 {

    },
    NO(
        Option<A>,
    ),
    NU(
        (),
    ),
    NI(
        Inner1,
    ),
    NB(
        TT,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W34_90 {
    T1(
        A,
        #[serde(skip)]
        B,
    ),
    NB(
        TT,
    ),
    NI(
        Inner1,
    ),
    NU(
        (),
    ),
    NO(
        Option<A>,
    ),
    S0 {

    },
    S {
        a: A,
        b: Option<A>,
    },
    T0(

    ),
    T(
        A,
        B,
    ),
    N(
        A,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_91 {
    U1,
    U2,
    U3,
}
#[derive(JsonSchema)]
pub enum W34_92 {
    U1,
    N(
        A,
    ),
    U2,
    /// x
    U3,
    U4,
}
#[derive(JsonSchema)]
pub enum W34_93 {
    /// x
    U1,
    /// y
    U2,
}
#[derive(JsonSchema)]
pub enum W34_94 {
    #[schemars(title = "t")]
    U1,
    U2,
}
#[derive(JsonSchema)]
pub enum W34_95 {
    #[deprecated]
    U1,
    U2,
}
#[derive(JsonSchema)]
pub enum W34_96 {
    #[schemars(with = "A")]
    U1,
    #[schemars(schema_with = "sw1")]
    U2,
    #[schemars(with = "B")]
    N(
        A,
    ),
    #[schemars(schema_with = "sw1")]
    T {
        a: A,
    },
}
#[derive(JsonSchema)]
pub enum W34_97 {
    N(
        #[schemars(with = "B")]
        A,
    ),
    N2(
        #[schemars(schema_with = "sw1")]
        A,
    ),
    /// vd
    N3(
        /// fd
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_98 {
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_99 {
    N(
        A,
    ),
    #[serde(untagged)]
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_100 {
    N(
        A,
    ),
    /// Docs.
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_101 {
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_102 {
    U,
    #[serde(untagged)]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_103 {
    U,
    /// Docs.
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_104 {
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_105 {
    U,
    #[serde(untagged)]
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_106 {
    U,
    /// Docs.
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_107 {
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_108 {
    U,
    #[serde(untagged)]
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_109 {
    U,
    /// Docs.
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_110 {
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_111 {
    U,
    #[serde(untagged)]
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_112 {
    U,
    /// Docs.
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_113 {
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_114 {
    U,
    #[serde(untagged)]
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_115 {
    U,
    /// Docs.
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_116 {
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_117 {
    U,
    #[serde(untagged)]
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_118 {
    U,
    /// Docs.
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_119 {
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_120 {
    U,
    #[serde(untagged)]
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_121 {
    U,
    /// Docs.
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_122 {
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_123 {
    U,
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_124 {
    U,
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_125 {
    U,
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_126 {
    U,
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_127 {
    U,
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_128 {
    U,
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_129 {
    N(
        A,
    ),
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_130 {
    N(
        A,
    ),
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_131 {
    N(
        A,
    ),
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_132 {
    N(
        A,
    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_133 {
    N(
        A,
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_134 {
    N(
        A,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_135 {
    S {
        a: A,
        b: Option<A>,
    },
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_136 {
    S {
        a: A,
        b: Option<A>,
    },
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_137 {
    S {
        a: A,
        b: Option<A>,
    },
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_138 {
    S {
        a: A,
        b: Option<A>,
    },
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_139 {
    S {
        a: A,
        b: Option<A>,
    },
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_140 {
    S0 {

    },
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_141 {
    S0 {

    },
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_142 {
    S0 {

    },
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_143 {
    S0 {

    },
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_144 {
    NO(
        Option<A>,
    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_145 {
    NO(
        Option<A>,
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_146 {
    NO(
        Option<A>,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_147 {
    NU(
        (),
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_148 {
    NU(
        (),
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_149 {
    NI(
        Inner1,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_150 {
    U,
    N(
        A,
    ),
    S {
        a: A,
        b: Option<A>,
    },
    S0 {

    },
    NO(
        Option<A>,
    ),
    NU(
        (),
    ),
    NI(
        Inner1,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_151 {
    NB(
        TT,
    ),
    NI(
        Inner1,
    ),
    NU(
        (),
    ),
    NO(
        Option<A>,
    ),
    S0 {

    },
    S {
        a: A,
        b: Option<A>,
    },
    N(
        A,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_152 {
    U1,
    U2,
    U3,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_153 {
    U1,
    N(
        A,
    ),
    U2,
    /// x
    U3,
    U4,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_154 {
    /// x
    U1,
    /// y
    U2,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_155 {
    #[schemars(title = "t")]
    U1,
    U2,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_156 {
    #[deprecated]
    U1,
    U2,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_157 {
    #[schemars(with = "A")]
    U1,
    #[schemars(schema_with = "sw1")]
    U2,
    #[schemars(with = "B")]
    N(
        A,
    ),
    #[schemars(schema_with = "sw1")]
    T {
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_158 {
    N(
        #[schemars(with = "B")]
        A,
    ),
    N2(
        #[schemars(schema_with = "sw1")]
        A,
    ),
    /// vd
    N3(
        /// fd
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_159 {
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_160 {
    N(
        A,
    ),
    #[serde(untagged)]
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_161 {
    N(
        A,
    ),
    /// Docs.
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_162 {
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_163 {
    U,
    #[serde(untagged)]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_164 {
    U,
    /// Docs.
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_165 {
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_166 {
    U,
    #[serde(untagged)]
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_167 {
    U,
    /// Docs.
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_168 {
    T0(

    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_169 {
    U,
    #[serde(untagged)]
    T0(

    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_170 {
    U,
    /// Docs.
    T0(

    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_171 {
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_172 {
    U,
    #[serde(untagged)]
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_173 {
    U,
    /// Docs.
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_174 {
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_175 {
    U,
    #[serde(untagged)]
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_176 {
    U,
    /// Docs.
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_177 {
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_178 {
    U,
    #[serde(untagged)]
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_179 {
    U,
    /// Docs.
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_180 {
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_181 {
    U,
    #[serde(untagged)]
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_182 {
    U,
    /// Docs.
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_183 {
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_184 {
    U,
    #[serde(untagged)]
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_185 {
    U,
    /// Docs.
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_186 {
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_187 {
    U,
    #[serde(untagged)]
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_188 {
    U,
    /// Docs.
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_189 {
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_190 {
    U,
    #[serde(untagged)]
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_191 {
    U,
    /// Docs.
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_192 {
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_193 {
    U,
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_194 {
    U,
    T0(

    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_195 {
    U,
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_196 {
    U,
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_197 {
    U,
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_198 {
    U,
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_199 {
    U,
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_200 {
    U,
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_201 {
    U,
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_202 {
    N(
        A,
    ),
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_203 {
    N(
        A,
    ),
    T0(

    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_204 {
    N(
        A,
    ),
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_205 {
    N(
        A,
    ),
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_206 {
    N(
        A,
    ),
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_207 {
    N(
        A,
    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_208 {
    N(
        A,
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_209 {
    N(
        A,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_210 {
    N(
        A,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_211 {
    T(
        A,
        B,
    ),
    T0(

    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_212 {
    T(
        A,
        B,
    ),
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_213 {
    T(
        A,
        B,
    ),
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_214 {
    T(
        A,
        B,
    ),
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_215 {
    T(
        A,
        B,
    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_216 {
    T(
        A,
        B,
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_217 {
    T(
        A,
        B,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_218 {
    T(
        A,
        B,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_219 {
    T0(

    ),
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_220 {
    T0(

    ),
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_221 {
    T0(

    ),
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_222 {
    T0(

    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_223 {
    T0(

    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_224 {
    T0(

    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_225 {
    T0(

    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_226 {
    S {
        a: A,
        b: Option<A>,
    },
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_227 {
    S {
        a: A,
        b: Option<A>,
    },
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_228 {
    S {
        a: A,
        b: Option<A>,
    },
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_229 {
    S {
        a: A,
        b: Option<A>,
    },
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_230 {
    S {
        a: A,
        b: Option<A>,
    },
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_231 {
    S {
        a: A,
        b: Option<A>,
    },
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_232 {
    S0 {

    },
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_233 {
    S0 {

    },
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_234 {
    S0 {

    },
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_235 {
    S0 {

    },
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_236 {
    S0 {

    },
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_237 {
    NO(
        Option<A>,
    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_238 {
    NO(
        Option<A>,
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_239 {
    NO(
        Option<A>,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_240 {
    NO(
        Option<A>,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_241 {
    NU(
        (),
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_242 {
    NU(
        (),
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_243 {
    NU(
        (),
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_244 {
    NI(
        Inner1,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_245 {
    NI(
        Inner1,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_246 {
    NB(
        TT,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_247 {
    U,
    N(
        A,
    ),
    T(
        A,
        B,
    ),
    T0(

    ),
    S {
        a: A,
        b: Option<A>,
    },
    S0 {

    },
    NO(
        Option<A>,
    ),
    NU(
        (),
    ),
    NI(
        Inner1,
    ),
    NB(
        TT,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_248 {
    T1(
        A,
        #[serde(skip)]
        B,
    ),
    NB(
        TT,
    ),
    NI(
        Inner1,
    ),
    NU(
        (),
    ),
    NO(
        Option<A>,
    ),
    S0 {

    },
    S {
        a: A,
        b: Option<A>,
    },
    T0(

    ),
    T(
        A,
        B,
    ),
    N(
        A,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_249 {
    U1,
    U2,
    U3,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_250 {
    U1,
    N(
        A,
    ),
    U2,
    /// x
    U3,
    U4,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_251 {
    /// x
    U1,
    /// y
    U2,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_252 {
    #[schemars(title = "t")]
    U1,
    U2,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_253 {
    #[deprecated]
    U1,
    U2,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_254 {
    #[schemars(with = "A")]
    U1,
    #[schemars(schema_with = "sw1")]
    U2,
    #[schemars(with = "B")]
    N(
        A,
    ),
    #[schemars(schema_with = "sw1")]
    T {
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_255 {
    N(
        #[schemars(with = "B")]
        A,
    ),
    N2(
        #[schemars(schema_with = "sw1")]
        A,
    ),
    /// vd
    N3(
        /// fd
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_256 {
    U,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_257 {
    N(
        A,
    ),
    /// Docs.
    U,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_258 {
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_259 {
    U,
    /// Docs.
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_260 {
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_261 {
    U,
    /// Docs.
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_262 {
    T0(

    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_263 {
    U,
    /// Docs.
    T0(

    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_264 {
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_265 {
    U,
    /// Docs.
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_266 {
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_267 {
    U,
    /// Docs.
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_268 {
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_269 {
    U,
    /// Docs.
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_270 {
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_271 {
    U,
    /// Docs.
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_272 {
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_273 {
    U,
    /// Docs.
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_274 {
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_275 {
    U,
    /// Docs.
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_276 {
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_277 {
    U,
    /// Docs.
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_278 {
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_279 {
    U,
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_280 {
    U,
    T0(

    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_281 {
    U,
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_282 {
    U,
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_283 {
    U,
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_284 {
    U,
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_285 {
    U,
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_286 {
    U,
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_287 {
    U,
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_288 {
    N(
        A,
    ),
    T(
        A,
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_289 {
    N(
        A,
    ),
    T0(

    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_290 {
    N(
        A,
    ),
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_291 {
    N(
        A,
    ),
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_292 {
    N(
        A,
    ),
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_293 {
    N(
        A,
    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_294 {
    N(
        A,
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_295 {
    N(
        A,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_296 {
    N(
        A,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_297 {
    T(
        A,
        B,
    ),
    T0(

    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_298 {
    T(
        A,
        B,
    ),
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_299 {
    T(
        A,
        B,
    ),
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_300 {
    T(
        A,
        B,
    ),
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_301 {
    T(
        A,
        B,
    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_302 {
    T(
        A,
        B,
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_303 {
    T(
        A,
        B,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_304 {
    T(
        A,
        B,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_305 {
    T0(

    ),
    S {
        a: A,
        b: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_306 {
    T0(

    ),
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_307 {
    T0(

    ),
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_308 {
    T0(

    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_309 {
    T0(

    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_310 {
    T0(

    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_311 {
    T0(

    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_312 {
    S {
        a: A,
        b: Option<A>,
    },
    S0 {

    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_313 {
    S {
        a: A,
        b: Option<A>,
    },
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_314 {
    S {
        a: A,
        b: Option<A>,
    },
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_315 {
    S {
        a: A,
        b: Option<A>,
    },
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_316 {
    S {
        a: A,
        b: Option<A>,
    },
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_317 {
    S {
        a: A,
        b: Option<A>,
    },
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_318 {
    S0 {

    },
    NO(
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_319 {
    S0 {

    },
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_320 {
    S0 {

    },
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_321 {
    S0 {

    },
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_322 {
    S0 {

    },
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_323 {
    NO(
        Option<A>,
    ),
    NU(
        (),
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_324 {
    NO(
        Option<A>,
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_325 {
    NO(
        Option<A>,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_326 {
    NO(
        Option<A>,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_327 {
    NU(
        (),
    ),
    NI(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_328 {
    NU(
        (),
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_329 {
    NU(
        (),
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_330 {
    NI(
        Inner1,
    ),
    NB(
        TT,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_331 {
    NI(
        Inner1,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_332 {
    NB(
        TT,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_333 {
    U,
    N(
        A,
    ),
    T(
        A,
        B,
    ),
    T0(

    ),
    S {
        a: A,
        b: Option<A>,
    },
    S0 {

    },
    NO(
        Option<A>,
    ),
    NU(
        (),
    ),
    NI(
        Inner1,
    ),
    NB(
        TT,
    ),
    T1(
        A,
        #[serde(skip)]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_334 {
    T1(
        A,
        #[serde(skip)]
        B,
    ),
    NB(
        TT,
    ),
    NI(
        Inner1,
    ),
    NU(
        (),
    ),
    NO(
        Option<A>,
    ),
    S0 {

    },
    S {
        a: A,
        b: Option<A>,
    },
    T0(

    ),
    T(
        A,
        B,
    ),
    N(
        A,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_335 {
    U1,
    U2,
    U3,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_336 {
    U1,
    N(
        A,
    ),
    U2,
    /// x
    U3,
    U4,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_337 {
    /// x
    U1,
    /// y
    U2,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_338 {
    #[schemars(title = "t")]
    U1,
    U2,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_339 {
    #[deprecated]
    U1,
    U2,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_340 {
    #[schemars(with = "A")]
    U1,
    #[schemars(schema_with = "sw1")]
    U2,
    #[schemars(with = "B")]
    N(
        A,
    ),
    #[schemars(schema_with = "sw1")]
    T {
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W34_341 {
    N(
        #[schemars(with = "B")]
        A,
    ),
    N2(
        #[schemars(schema_with = "sw1")]
        A,
    ),
    /// vd
    N3(
        /// fd
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_342 {
    N(
        Deny1,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_343 {
    N(
        Deny1,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_344 {
    N(
        Deny1,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_345 {
    N(
        Deny1,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_346 {
    #[schemars(with = "Deny1")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_347 {
    N(
        Uneval1,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_348 {
    N(
        Uneval1,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_349 {
    N(
        Uneval1,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_350 {
    N(
        Uneval1,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_351 {
    #[schemars(with = "Uneval1")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_352 {
    N(
        Nested1,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_353 {
    N(
        Nested1,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_354 {
    N(
        Nested1,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_355 {
    N(
        Nested1,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_356 {
    #[schemars(with = "Nested1")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_357 {
    N(
        UnitS,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_358 {
    N(
        UnitS,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_359 {
    N(
        UnitS,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_360 {
    N(
        UnitS,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_361 {
    #[schemars(with = "UnitS")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_362 {
    N(
        Refd,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_363 {
    N(
        Refd,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_364 {
    N(
        Refd,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_365 {
    N(
        Refd,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_366 {
    #[schemars(with = "Refd")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_367 {
    N(
        MapS,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_368 {
    N(
        MapS,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_369 {
    N(
        MapS,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_370 {
    N(
        MapS,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_371 {
    #[schemars(with = "MapS")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_372 {
    N(
        InlineS,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_373 {
    N(
        InlineS,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_374 {
    N(
        InlineS,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_375 {
    N(
        InlineS,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_376 {
    #[schemars(with = "InlineS")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_377 {
    N(
        TT,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_378 {
    N(
        TT,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_379 {
    N(
        TT,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_380 {
    N(
        TT,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_381 {
    #[schemars(with = "TT")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_382 {
    N(
        FF,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_383 {
    N(
        FF,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_384 {
    N(
        FF,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_385 {
    N(
        FF,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_386 {
    #[schemars(with = "FF")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_387 {
    N(
        Option<A>,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_388 {
    N(
        Option<A>,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_389 {
    N(
        Option<A>,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_390 {
    N(
        Option<A>,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_391 {
    #[schemars(with = "Option<A>")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_392 {
    N(
        D,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_393 {
    N(
        D,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_394 {
    N(
        D,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_395 {
    N(
        D,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_396 {
    #[schemars(with = "D")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_397 {
    N(
        Box<Deny1>,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_398 {
    N(
        Box<Deny1>,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_399 {
    N(
        Box<Deny1>,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_400 {
    N(
        Box<Deny1>,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_401 {
    #[schemars(with = "Box<Deny1>")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_402 {
    N(
        NestedDeep,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_403 {
    N(
        NestedDeep,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_404 {
    N(
        NestedDeep,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_405 {
    N(
        NestedDeep,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_406 {
    #[schemars(with = "NestedDeep")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_407 {
    N(
        Req1,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W34_408 {
    N(
        Req1,
    ),
    U,
}
#[derive(JsonSchema)]
pub enum W34_409 {
    N(
        Req1,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W34_410 {
    N(
        Req1,
    ),
    U,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W34_411 {
    #[schemars(with = "Req1")]
    N(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W35_1 {
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub enum W35_2 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W35_3 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_4 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W35_5 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W35_6 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W35_7 {
    #[serde(flatten)]
    pub fl: Inner1,
}
#[derive(JsonSchema)]
pub enum W35_8 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W35_9 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_10 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W35_11 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W35_12 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W35_13 {
    #[serde(flatten)]
    pub fl: Deny1,
}
#[derive(JsonSchema)]
pub enum W35_14 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W35_15 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_16 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W35_17 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W35_18 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W35_19 {
    #[serde(flatten)]
    pub fl: Enum1,
}
#[derive(JsonSchema)]
pub enum W35_20 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W35_21 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_22 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W35_23 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W35_24 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Refd,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W35_25 {
    #[serde(flatten)]
    pub fl: Refd,
}
#[derive(JsonSchema)]
pub enum W35_26 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W35_27 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_28 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W35_29 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W35_30 {
    pub a: A,
    #[serde(flatten)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W35_31 {
    #[serde(flatten)]
    pub fl: MapS,
}
#[derive(JsonSchema)]
pub struct W35_32 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W35_33 {
    #[serde(flatten)]
    pub fl: Option<Inner1>,
}
#[derive(JsonSchema)]
pub struct W35_34 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W35_35 {
    #[serde(flatten)]
    pub fl: Option<Enum1>,
}
#[derive(JsonSchema)]
pub struct W35_36 {
    pub a: A,
    #[serde(flatten)]
    pub fl: TT,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W35_37 {
    #[serde(flatten)]
    pub fl: TT,
}
#[derive(JsonSchema)]
pub struct W35_38 {
    pub a: A,
    #[serde(flatten)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W35_39 {
    #[serde(flatten)]
    pub fl: UnEnum,
}
#[derive(JsonSchema)]
pub struct W35_40 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Uneval1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W35_41 {
    #[serde(flatten)]
    pub fl: Uneval1,
}
#[derive(JsonSchema)]
pub struct W35_42 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Nested1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W35_43 {
    #[serde(flatten)]
    pub fl: Nested1,
}
#[derive(JsonSchema)]
pub enum W35_44 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W35_45 {
    S {
        a: A,
    },
    #[serde(untagged)]
    S2 {
        a: A,
    },
    #[serde(untagged)]
    N2(
        Deny1,
    ),
}
#[derive(JsonSchema)]
pub enum W35_46 {
    T(
        A,
        B,
    ),
    S {
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W35_47 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W35_48 {
    S {
        a: A,
    },
    #[serde(untagged)]
    S2 {
        a: A,
    },
    #[serde(untagged)]
    N2(
        Deny1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_49 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_50 {
    S {
        a: A,
    },
    #[serde(untagged)]
    S2 {
        a: A,
    },
    #[serde(untagged)]
    N2(
        Deny1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_51 {
    T(
        A,
        B,
    ),
    S {
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W35_52 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W35_53 {
    T(
        A,
        B,
    ),
    S {
        a: A,
    },
}
#[derive(JsonSchema)]
pub struct W35_54(
    pub Inner1,
);
#[derive(JsonSchema)]
pub struct W35_55(
    pub Inner1,
    pub A,
);
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W35_56 {
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W35_57 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_58 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_59 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_60 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W35_61 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W35_62 {
    S {
        a: A,
    },
    #[serde(untagged)]
    S2 {
        a: A,
    },
    #[serde(untagged)]
    N2(
        Deny1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W35_63 {
    T(
        A,
        B,
    ),
    S {
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_64 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_65 {
    S {
        a: A,
    },
    #[serde(untagged)]
    S2 {
        a: A,
    },
    #[serde(untagged)]
    N2(
        Deny1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_66 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_67 {
    S {
        a: A,
    },
    #[serde(untagged)]
    S2 {
        a: A,
    },
    #[serde(untagged)]
    N2(
        Deny1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_68 {
    T(
        A,
        B,
    ),
    S {
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_69 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_70 {
    T(
        A,
        B,
    ),
    S {
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W35_71(
    pub Inner1,
);
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W35_72(
    pub Inner1,
    pub A,
);
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_73 {
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub enum W35_74 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_75 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_76 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_77 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_78 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_79 {
    #[serde(flatten)]
    pub fl: Inner1,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub enum W35_80 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_81 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_82 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_83 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_84 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_85 {
    #[serde(flatten)]
    pub fl: Deny1,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub enum W35_86 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_87 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_88 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_89 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_90 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_91 {
    #[serde(flatten)]
    pub fl: Enum1,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub enum W35_92 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_93 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_94 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_95 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_96 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Refd,
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_97 {
    #[serde(flatten)]
    pub fl: Refd,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub enum W35_98 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_99 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_100 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_101 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_102 {
    pub a: A,
    #[serde(flatten)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_103 {
    #[serde(flatten)]
    pub fl: MapS,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_104 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_105 {
    #[serde(flatten)]
    pub fl: Option<Inner1>,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_106 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_107 {
    #[serde(flatten)]
    pub fl: Option<Enum1>,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_108 {
    pub a: A,
    #[serde(flatten)]
    pub fl: TT,
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_109 {
    #[serde(flatten)]
    pub fl: TT,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_110 {
    pub a: A,
    #[serde(flatten)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_111 {
    #[serde(flatten)]
    pub fl: UnEnum,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_112 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Uneval1,
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_113 {
    #[serde(flatten)]
    pub fl: Uneval1,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_114 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Nested1,
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_115 {
    #[serde(flatten)]
    pub fl: Nested1,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub enum W35_116 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub enum W35_117 {
    S {
        a: A,
    },
    #[serde(untagged)]
    S2 {
        a: A,
    },
    #[serde(untagged)]
    N2(
        Deny1,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub enum W35_118 {
    T(
        A,
        B,
    ),
    S {
        a: A,
    },
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_119 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_120 {
    S {
        a: A,
    },
    #[serde(untagged)]
    S2 {
        a: A,
    },
    #[serde(untagged)]
    N2(
        Deny1,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_121 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_122 {
    S {
        a: A,
    },
    #[serde(untagged)]
    S2 {
        a: A,
    },
    #[serde(untagged)]
    N2(
        Deny1,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_123 {
    T(
        A,
        B,
    ),
    S {
        a: A,
    },
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_124 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_125 {
    T(
        A,
        B,
    ),
    S {
        a: A,
    },
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_126(
    pub Inner1,
);
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W35_127(
    pub Inner1,
    pub A,
);
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_128 {
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub enum W35_129 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_130 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_131 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_132 {
    S {
        a: A,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_133 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_134 {
    #[serde(flatten)]
    pub fl: Inner1,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub enum W35_135 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_136 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_137 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_138 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_139 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_140 {
    #[serde(flatten)]
    pub fl: Deny1,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub enum W35_141 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_142 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_143 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_144 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_145 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_146 {
    #[serde(flatten)]
    pub fl: Enum1,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub enum W35_147 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_148 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_149 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_150 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_151 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Refd,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_152 {
    #[serde(flatten)]
    pub fl: Refd,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub enum W35_153 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_154 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_155 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_156 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
        b: B,
    },
    U,
    N(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_157 {
    pub a: A,
    #[serde(flatten)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_158 {
    #[serde(flatten)]
    pub fl: MapS,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_159 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_160 {
    #[serde(flatten)]
    pub fl: Option<Inner1>,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_161 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_162 {
    #[serde(flatten)]
    pub fl: Option<Enum1>,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_163 {
    pub a: A,
    #[serde(flatten)]
    pub fl: TT,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_164 {
    #[serde(flatten)]
    pub fl: TT,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_165 {
    pub a: A,
    #[serde(flatten)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_166 {
    #[serde(flatten)]
    pub fl: UnEnum,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_167 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Uneval1,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_168 {
    #[serde(flatten)]
    pub fl: Uneval1,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_169 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Nested1,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_170 {
    #[serde(flatten)]
    pub fl: Nested1,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub enum W35_171 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub enum W35_172 {
    S {
        a: A,
    },
    #[serde(untagged)]
    S2 {
        a: A,
    },
    #[serde(untagged)]
    N2(
        Deny1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub enum W35_173 {
    T(
        A,
        B,
    ),
    S {
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_174 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
pub enum W35_175 {
    S {
        a: A,
    },
    #[serde(untagged)]
    S2 {
        a: A,
    },
    #[serde(untagged)]
    N2(
        Deny1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_176 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_177 {
    S {
        a: A,
    },
    #[serde(untagged)]
    S2 {
        a: A,
    },
    #[serde(untagged)]
    N2(
        Deny1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W35_178 {
    T(
        A,
        B,
    ),
    S {
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_179 {
    S {

    },
    /// d
    U,
    NU(
        (),
    ),
    NI(
        Deny1,
    ),
    NR(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
#[serde(untagged)]
pub enum W35_180 {
    T(
        A,
        B,
    ),
    S {
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_181(
    pub Inner1,
);
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[schemars(!deny_unknown_fields)]
pub struct W35_182(
    pub Inner1,
    pub A,
);
#[derive(JsonSchema)]
pub struct W36_1 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_2 {
    #[schemars(flatten)]
    pub fl: Inner1,
}
#[derive(JsonSchema)]
pub enum W36_3 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_4 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner1,
    },
}
#[derive(JsonSchema)]
pub struct W36_5 {
    #[serde(flatten)]
    #[schemars(with = "Inner1")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_6 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_7 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_8 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_9 {
    #[schemars(flatten)]
    pub fl: Option<Inner1>,
}
#[derive(JsonSchema)]
pub struct W36_10 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<Inner1>,
}
#[derive(JsonSchema)]
pub struct W36_11 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_12 {
    #[schemars(flatten)]
    pub fl: Box<Inner1>,
}
#[derive(JsonSchema)]
pub struct W36_13 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<Inner1>,
}
#[derive(JsonSchema)]
pub struct W36_14 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Inner2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_15 {
    #[schemars(flatten)]
    pub fl: Inner2,
}
#[derive(JsonSchema)]
pub enum W36_16 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner2,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_17 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Inner2,
    },
}
#[derive(JsonSchema)]
pub struct W36_18 {
    #[serde(flatten)]
    #[schemars(with = "Inner2")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_19 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_20 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_21 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Inner2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_22 {
    #[schemars(flatten)]
    pub fl: Option<Inner2>,
}
#[derive(JsonSchema)]
pub struct W36_23 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<Inner2>,
}
#[derive(JsonSchema)]
pub struct W36_24 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Inner2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_25 {
    #[schemars(flatten)]
    pub fl: Box<Inner2>,
}
#[derive(JsonSchema)]
pub struct W36_26 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<Inner2>,
}
#[derive(JsonSchema)]
pub struct W36_27 {
    pub a: A,
    #[serde(flatten)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_28 {
    #[schemars(flatten)]
    pub fl: InnerO,
}
#[derive(JsonSchema)]
pub enum W36_29 {
    S {
        a: A,
        #[serde(flatten)]
        fl: InnerO,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_30 {
    S {
        a: A,
        #[serde(flatten)]
        fl: InnerO,
    },
}
#[derive(JsonSchema)]
pub struct W36_31 {
    #[serde(flatten)]
    #[schemars(with = "InnerO")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_32 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_33 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_34 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_35 {
    #[schemars(flatten)]
    pub fl: Option<InnerO>,
}
#[derive(JsonSchema)]
pub struct W36_36 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<InnerO>,
}
#[derive(JsonSchema)]
pub struct W36_37 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_38 {
    #[schemars(flatten)]
    pub fl: Box<InnerO>,
}
#[derive(JsonSchema)]
pub struct W36_39 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<InnerO>,
}
#[derive(JsonSchema)]
pub struct W36_40 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_41 {
    #[schemars(flatten)]
    pub fl: Deny1,
}
#[derive(JsonSchema)]
pub enum W36_42 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_43 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Deny1,
    },
}
#[derive(JsonSchema)]
pub struct W36_44 {
    #[serde(flatten)]
    #[schemars(with = "Deny1")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_45 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_46 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_47 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_48 {
    #[schemars(flatten)]
    pub fl: Option<Deny1>,
}
#[derive(JsonSchema)]
pub struct W36_49 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<Deny1>,
}
#[derive(JsonSchema)]
pub struct W36_50 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_51 {
    #[schemars(flatten)]
    pub fl: Box<Deny1>,
}
#[derive(JsonSchema)]
pub struct W36_52 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<Deny1>,
}
#[derive(JsonSchema)]
pub struct W36_53 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Uneval1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_54 {
    #[schemars(flatten)]
    pub fl: Uneval1,
}
#[derive(JsonSchema)]
pub enum W36_55 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Uneval1,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_56 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Uneval1,
    },
}
#[derive(JsonSchema)]
pub struct W36_57 {
    #[serde(flatten)]
    #[schemars(with = "Uneval1")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_58 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_59 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_60 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Uneval1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_61 {
    #[schemars(flatten)]
    pub fl: Option<Uneval1>,
}
#[derive(JsonSchema)]
pub struct W36_62 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<Uneval1>,
}
#[derive(JsonSchema)]
pub struct W36_63 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Uneval1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_64 {
    #[schemars(flatten)]
    pub fl: Box<Uneval1>,
}
#[derive(JsonSchema)]
pub struct W36_65 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<Uneval1>,
}
#[derive(JsonSchema)]
pub struct W36_66 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_67 {
    #[schemars(flatten)]
    pub fl: Enum1,
}
#[derive(JsonSchema)]
pub enum W36_68 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_69 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum1,
    },
}
#[derive(JsonSchema)]
pub struct W36_70 {
    #[serde(flatten)]
    #[schemars(with = "Enum1")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_71 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_72 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_73 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_74 {
    #[schemars(flatten)]
    pub fl: Option<Enum1>,
}
#[derive(JsonSchema)]
pub struct W36_75 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<Enum1>,
}
#[derive(JsonSchema)]
pub struct W36_76 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_77 {
    #[schemars(flatten)]
    pub fl: Box<Enum1>,
}
#[derive(JsonSchema)]
pub struct W36_78 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<Enum1>,
}
#[derive(JsonSchema)]
pub struct W36_79 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Enum2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_80 {
    #[schemars(flatten)]
    pub fl: Enum2,
}
#[derive(JsonSchema)]
pub enum W36_81 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum2,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_82 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Enum2,
    },
}
#[derive(JsonSchema)]
pub struct W36_83 {
    #[serde(flatten)]
    #[schemars(with = "Enum2")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_84 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_85 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_86 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Enum2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_87 {
    #[schemars(flatten)]
    pub fl: Option<Enum2>,
}
#[derive(JsonSchema)]
pub struct W36_88 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<Enum2>,
}
#[derive(JsonSchema)]
pub struct W36_89 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Enum2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_90 {
    #[schemars(flatten)]
    pub fl: Box<Enum2>,
}
#[derive(JsonSchema)]
pub struct W36_91 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<Enum2>,
}
#[derive(JsonSchema)]
pub struct W36_92 {
    pub a: A,
    #[serde(flatten)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_93 {
    #[schemars(flatten)]
    pub fl: UnEnum,
}
#[derive(JsonSchema)]
pub enum W36_94 {
    S {
        a: A,
        #[serde(flatten)]
        fl: UnEnum,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_95 {
    S {
        a: A,
        #[serde(flatten)]
        fl: UnEnum,
    },
}
#[derive(JsonSchema)]
pub struct W36_96 {
    #[serde(flatten)]
    #[schemars(with = "UnEnum")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_97 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_98 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_99 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_100 {
    #[schemars(flatten)]
    pub fl: Option<UnEnum>,
}
#[derive(JsonSchema)]
pub struct W36_101 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<UnEnum>,
}
#[derive(JsonSchema)]
pub struct W36_102 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_103 {
    #[schemars(flatten)]
    pub fl: Box<UnEnum>,
}
#[derive(JsonSchema)]
pub struct W36_104 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<UnEnum>,
}
#[derive(JsonSchema)]
pub struct W36_105 {
    pub a: A,
    #[serde(flatten)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_106 {
    #[schemars(flatten)]
    pub fl: UnitEnum,
}
#[derive(JsonSchema)]
pub enum W36_107 {
    S {
        a: A,
        #[serde(flatten)]
        fl: UnitEnum,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_108 {
    S {
        a: A,
        #[serde(flatten)]
        fl: UnitEnum,
    },
}
#[derive(JsonSchema)]
pub struct W36_109 {
    #[serde(flatten)]
    #[schemars(with = "UnitEnum")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_110 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_111 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_112 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_113 {
    #[schemars(flatten)]
    pub fl: Option<UnitEnum>,
}
#[derive(JsonSchema)]
pub struct W36_114 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<UnitEnum>,
}
#[derive(JsonSchema)]
pub struct W36_115 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_116 {
    #[schemars(flatten)]
    pub fl: Box<UnitEnum>,
}
#[derive(JsonSchema)]
pub struct W36_117 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<UnitEnum>,
}
#[derive(JsonSchema)]
pub struct W36_118 {
    pub a: A,
    #[serde(flatten)]
    pub fl: TagEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_119 {
    #[schemars(flatten)]
    pub fl: TagEnum,
}
#[derive(JsonSchema)]
pub enum W36_120 {
    S {
        a: A,
        #[serde(flatten)]
        fl: TagEnum,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_121 {
    S {
        a: A,
        #[serde(flatten)]
        fl: TagEnum,
    },
}
#[derive(JsonSchema)]
pub struct W36_122 {
    #[serde(flatten)]
    #[schemars(with = "TagEnum")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_123 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_124 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_125 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<TagEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_126 {
    #[schemars(flatten)]
    pub fl: Option<TagEnum>,
}
#[derive(JsonSchema)]
pub struct W36_127 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<TagEnum>,
}
#[derive(JsonSchema)]
pub struct W36_128 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<TagEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_129 {
    #[schemars(flatten)]
    pub fl: Box<TagEnum>,
}
#[derive(JsonSchema)]
pub struct W36_130 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<TagEnum>,
}
#[derive(JsonSchema)]
pub struct W36_131 {
    pub a: A,
    #[serde(flatten)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_132 {
    #[schemars(flatten)]
    pub fl: MixEnum,
}
#[derive(JsonSchema)]
pub enum W36_133 {
    S {
        a: A,
        #[serde(flatten)]
        fl: MixEnum,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_134 {
    S {
        a: A,
        #[serde(flatten)]
        fl: MixEnum,
    },
}
#[derive(JsonSchema)]
pub struct W36_135 {
    #[serde(flatten)]
    #[schemars(with = "MixEnum")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_136 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_137 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_138 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_139 {
    #[schemars(flatten)]
    pub fl: Option<MixEnum>,
}
#[derive(JsonSchema)]
pub struct W36_140 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<MixEnum>,
}
#[derive(JsonSchema)]
pub struct W36_141 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_142 {
    #[schemars(flatten)]
    pub fl: Box<MixEnum>,
}
#[derive(JsonSchema)]
pub struct W36_143 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<MixEnum>,
}
#[derive(JsonSchema)]
pub struct W36_144 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Refd,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_145 {
    #[schemars(flatten)]
    pub fl: Refd,
}
#[derive(JsonSchema)]
pub enum W36_146 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_147 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Refd,
    },
}
#[derive(JsonSchema)]
pub struct W36_148 {
    #[serde(flatten)]
    #[schemars(with = "Refd")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_149 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: Refd,
}
#[derive(JsonSchema)]
pub struct W36_150 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: Refd,
}
#[derive(JsonSchema)]
pub struct W36_151 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Refd>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_152 {
    #[schemars(flatten)]
    pub fl: Option<Refd>,
}
#[derive(JsonSchema)]
pub struct W36_153 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<Refd>,
}
#[derive(JsonSchema)]
pub struct W36_154 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Refd>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_155 {
    #[schemars(flatten)]
    pub fl: Box<Refd>,
}
#[derive(JsonSchema)]
pub struct W36_156 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<Refd>,
}
#[derive(JsonSchema)]
pub struct W36_157 {
    pub a: A,
    #[serde(flatten)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_158 {
    #[schemars(flatten)]
    pub fl: MapS,
}
#[derive(JsonSchema)]
pub enum W36_159 {
    S {
        a: A,
        #[serde(flatten)]
        fl: MapS,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_160 {
    S {
        a: A,
        #[serde(flatten)]
        fl: MapS,
    },
}
#[derive(JsonSchema)]
pub struct W36_161 {
    #[serde(flatten)]
    #[schemars(with = "MapS")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_162 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: MapS,
}
#[derive(JsonSchema)]
pub struct W36_163 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: MapS,
}
#[derive(JsonSchema)]
pub struct W36_164 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_165 {
    #[schemars(flatten)]
    pub fl: Option<MapS>,
}
#[derive(JsonSchema)]
pub struct W36_166 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<MapS>,
}
#[derive(JsonSchema)]
pub struct W36_167 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_168 {
    #[schemars(flatten)]
    pub fl: Box<MapS>,
}
#[derive(JsonSchema)]
pub struct W36_169 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<MapS>,
}
#[derive(JsonSchema)]
pub struct W36_170 {
    pub a: A,
    #[serde(flatten)]
    pub fl: TT,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_171 {
    #[schemars(flatten)]
    pub fl: TT,
}
#[derive(JsonSchema)]
pub enum W36_172 {
    S {
        a: A,
        #[serde(flatten)]
        fl: TT,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_173 {
    S {
        a: A,
        #[serde(flatten)]
        fl: TT,
    },
}
#[derive(JsonSchema)]
pub struct W36_174 {
    #[serde(flatten)]
    #[schemars(with = "TT")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_175 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: TT,
}
#[derive(JsonSchema)]
pub struct W36_176 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: TT,
}
#[derive(JsonSchema)]
pub struct W36_177 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<TT>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_178 {
    #[schemars(flatten)]
    pub fl: Option<TT>,
}
#[derive(JsonSchema)]
pub struct W36_179 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<TT>,
}
#[derive(JsonSchema)]
pub struct W36_180 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<TT>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_181 {
    #[schemars(flatten)]
    pub fl: Box<TT>,
}
#[derive(JsonSchema)]
pub struct W36_182 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<TT>,
}
#[derive(JsonSchema)]
pub struct W36_183 {
    pub a: A,
    #[serde(flatten)]
    pub fl: FF,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_184 {
    #[schemars(flatten)]
    pub fl: FF,
}
#[derive(JsonSchema)]
pub enum W36_185 {
    S {
        a: A,
        #[serde(flatten)]
        fl: FF,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_186 {
    S {
        a: A,
        #[serde(flatten)]
        fl: FF,
    },
}
#[derive(JsonSchema)]
pub struct W36_187 {
    #[serde(flatten)]
    #[schemars(with = "FF")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_188 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: FF,
}
#[derive(JsonSchema)]
pub struct W36_189 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: FF,
}
#[derive(JsonSchema)]
pub struct W36_190 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<FF>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_191 {
    #[schemars(flatten)]
    pub fl: Option<FF>,
}
#[derive(JsonSchema)]
pub struct W36_192 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<FF>,
}
#[derive(JsonSchema)]
pub struct W36_193 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<FF>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_194 {
    #[schemars(flatten)]
    pub fl: Box<FF>,
}
#[derive(JsonSchema)]
pub struct W36_195 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<FF>,
}
#[derive(JsonSchema)]
pub struct W36_196 {
    pub a: A,
    #[serde(flatten)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_197 {
    #[schemars(flatten)]
    pub fl: A,
}
#[derive(JsonSchema)]
pub enum W36_198 {
    S {
        a: A,
        #[serde(flatten)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_199 {
    S {
        a: A,
        #[serde(flatten)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W36_200 {
    #[serde(flatten)]
    #[schemars(with = "A")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_201 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: A,
}
#[derive(JsonSchema)]
pub struct W36_202 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: A,
}
#[derive(JsonSchema)]
pub struct W36_203 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<A>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_204 {
    #[schemars(flatten)]
    pub fl: Option<A>,
}
#[derive(JsonSchema)]
pub struct W36_205 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<A>,
}
#[derive(JsonSchema)]
pub struct W36_206 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<A>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_207 {
    #[schemars(flatten)]
    pub fl: Box<A>,
}
#[derive(JsonSchema)]
pub struct W36_208 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<A>,
}
#[derive(JsonSchema)]
pub struct W36_209 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Nested1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_210 {
    #[schemars(flatten)]
    pub fl: Nested1,
}
#[derive(JsonSchema)]
pub enum W36_211 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Nested1,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_212 {
    S {
        a: A,
        #[serde(flatten)]
        fl: Nested1,
    },
}
#[derive(JsonSchema)]
pub struct W36_213 {
    #[serde(flatten)]
    #[schemars(with = "Nested1")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_214 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_215 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_216 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Nested1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_217 {
    #[schemars(flatten)]
    pub fl: Option<Nested1>,
}
#[derive(JsonSchema)]
pub struct W36_218 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<Nested1>,
}
#[derive(JsonSchema)]
pub struct W36_219 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Nested1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_220 {
    #[schemars(flatten)]
    pub fl: Box<Nested1>,
}
#[derive(JsonSchema)]
pub struct W36_221 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<Nested1>,
}
#[derive(JsonSchema)]
pub struct W36_222 {
    pub a: A,
    #[serde(flatten)]
    pub fl: NestedDeep,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_223 {
    #[schemars(flatten)]
    pub fl: NestedDeep,
}
#[derive(JsonSchema)]
pub enum W36_224 {
    S {
        a: A,
        #[serde(flatten)]
        fl: NestedDeep,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_225 {
    S {
        a: A,
        #[serde(flatten)]
        fl: NestedDeep,
    },
}
#[derive(JsonSchema)]
pub struct W36_226 {
    #[serde(flatten)]
    #[schemars(with = "NestedDeep")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_227 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_228 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_229 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<NestedDeep>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_230 {
    #[schemars(flatten)]
    pub fl: Option<NestedDeep>,
}
#[derive(JsonSchema)]
pub struct W36_231 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<NestedDeep>,
}
#[derive(JsonSchema)]
pub struct W36_232 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<NestedDeep>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_233 {
    #[schemars(flatten)]
    pub fl: Box<NestedDeep>,
}
#[derive(JsonSchema)]
pub struct W36_234 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<NestedDeep>,
}
#[derive(JsonSchema)]
pub struct W36_235 {
    pub a: A,
    #[serde(flatten)]
    pub fl: PatS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_236 {
    #[schemars(flatten)]
    pub fl: PatS,
}
#[derive(JsonSchema)]
pub enum W36_237 {
    S {
        a: A,
        #[serde(flatten)]
        fl: PatS,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W36_238 {
    S {
        a: A,
        #[serde(flatten)]
        fl: PatS,
    },
}
#[derive(JsonSchema)]
pub struct W36_239 {
    #[serde(flatten)]
    #[schemars(with = "PatS")]
    pub fl: A,
}
#[derive(JsonSchema)]
pub struct W36_240 {
    #[serde(flatten)]
    #[serde(rename = "zz")]
    pub p: PatS,
}
#[derive(JsonSchema)]
pub struct W36_241 {
    #[serde(flatten)]
    #[serde(default)]
    pub p: PatS,
}
#[derive(JsonSchema)]
pub struct W36_242 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<PatS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_243 {
    #[schemars(flatten)]
    pub fl: Option<PatS>,
}
#[derive(JsonSchema)]
pub struct W36_244 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Option<PatS>,
}
#[derive(JsonSchema)]
pub struct W36_245 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<PatS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_246 {
    #[schemars(flatten)]
    pub fl: Box<PatS>,
}
#[derive(JsonSchema)]
pub struct W36_247 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(required)]
    pub fl: Box<PatS>,
}
#[derive(JsonSchema)]
pub struct W36_248 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_249 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_250 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_251 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_252 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_253 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_254 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_255 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_256 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_257 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_258 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_259 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_260 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_261 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_262 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_263 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_264 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_265 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_266 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_267 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_268 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_269 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_270 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_271 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_272 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_273 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_274 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_275 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_276 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_277 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_278 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_279 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_280 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_281 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_282 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_283 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_284 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_285 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Inner2,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_286 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_287 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_288 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_289 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_290 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_291 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_292 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_293 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_294 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_295 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_296 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_297 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_298 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_299 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_300 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_301 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_302 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_303 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_304 {
    pub a: A,
    #[serde(flatten)]
    pub f1: InnerO,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_305 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_306 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_307 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_308 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_309 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_310 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_311 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_312 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_313 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_314 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_315 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_316 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_317 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_318 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_319 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_320 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_321 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_322 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_323 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Deny1,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_324 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_325 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_326 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_327 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_328 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_329 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_330 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_331 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_332 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_333 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_334 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_335 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_336 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_337 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_338 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_339 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_340 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_341 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_342 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Uneval1,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_343 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_344 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_345 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_346 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_347 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_348 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_349 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_350 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_351 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_352 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_353 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_354 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_355 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_356 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_357 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_358 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_359 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_360 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_361 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_362 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_363 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_364 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_365 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_366 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_367 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_368 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_369 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_370 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_371 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_372 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_373 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_374 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_375 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_376 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_377 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_378 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_379 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_380 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Enum2,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_381 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_382 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_383 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_384 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_385 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_386 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_387 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_388 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_389 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_390 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_391 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_392 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_393 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_394 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_395 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_396 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_397 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_398 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_399 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_400 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_401 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_402 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_403 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_404 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_405 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_406 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_407 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_408 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_409 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_410 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_411 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_412 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_413 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_414 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_415 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_416 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_417 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_418 {
    pub a: A,
    #[serde(flatten)]
    pub f1: UnitEnum,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_419 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_420 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_421 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_422 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_423 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_424 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_425 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_426 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_427 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_428 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_429 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_430 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_431 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_432 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_433 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_434 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_435 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_436 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_437 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TagEnum,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_438 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_439 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_440 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_441 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_442 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_443 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_444 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_445 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_446 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_447 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_448 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_449 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_450 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_451 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_452 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_453 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_454 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_455 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_456 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MixEnum,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_457 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_458 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_459 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_460 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_461 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_462 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_463 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_464 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_465 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_466 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_467 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_468 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_469 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_470 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_471 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_472 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_473 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_474 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_475 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Refd,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_476 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_477 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_478 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_479 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_480 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_481 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_482 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_483 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_484 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_485 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_486 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_487 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_488 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_489 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_490 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_491 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_492 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_493 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_494 {
    pub a: A,
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_495 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_496 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_497 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_498 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_499 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_500 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_501 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_502 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_503 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_504 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_505 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_506 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_507 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_508 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_509 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_510 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_511 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_512 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_513 {
    pub a: A,
    #[serde(flatten)]
    pub f1: TT,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_514 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_515 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_516 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_517 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_518 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_519 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_520 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_521 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_522 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_523 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_524 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_525 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_526 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_527 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_528 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_529 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_530 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_531 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_532 {
    pub a: A,
    #[serde(flatten)]
    pub f1: FF,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_533 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_534 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_535 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_536 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_537 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_538 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_539 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_540 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_541 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_542 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_543 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_544 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_545 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_546 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_547 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_548 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_549 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_550 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_551 {
    pub a: A,
    #[serde(flatten)]
    pub f1: A,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_552 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_553 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_554 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_555 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_556 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_557 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_558 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_559 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_560 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_561 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_562 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_563 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_564 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_565 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_566 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_567 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_568 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_569 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_570 {
    pub a: A,
    #[serde(flatten)]
    pub f1: Nested1,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_571 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_572 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_573 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_574 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_575 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_576 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_577 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_578 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_579 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_580 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_581 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_582 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_583 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_584 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_585 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_586 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_587 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_588 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_589 {
    pub a: A,
    #[serde(flatten)]
    pub f1: NestedDeep,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_590 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_591 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_592 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_593 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_594 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: Uneval1,
}
#[derive(JsonSchema)]
pub struct W36_595 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_596 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: Enum2,
}
#[derive(JsonSchema)]
pub struct W36_597 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_598 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_599 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: TagEnum,
}
#[derive(JsonSchema)]
pub struct W36_600 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_601 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: Refd,
}
#[derive(JsonSchema)]
pub struct W36_602 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: MapS,
}
#[derive(JsonSchema)]
pub struct W36_603 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: TT,
}
#[derive(JsonSchema)]
pub struct W36_604 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: FF,
}
#[derive(JsonSchema)]
pub struct W36_605 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: A,
}
#[derive(JsonSchema)]
pub struct W36_606 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: Nested1,
}
#[derive(JsonSchema)]
pub struct W36_607 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: NestedDeep,
}
#[derive(JsonSchema)]
pub struct W36_608 {
    pub a: A,
    #[serde(flatten)]
    pub f1: PatS,
    #[serde(flatten)]
    pub f2: PatS,
}
#[derive(JsonSchema)]
pub struct W36_609 {
    #[serde(flatten)]
    pub f1: Option<Enum1>,
    #[serde(flatten)]
    pub f2: Enum2,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_610 {
    #[serde(flatten)]
    pub f1: Option<Enum1>,
    #[serde(flatten)]
    pub f2: Option<Enum2>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_611 {
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: Enum2,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_612 {
    #[serde(flatten)]
    pub f1: Option<Enum1>,
    #[serde(flatten)]
    pub f2: UnEnum,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_613 {
    #[serde(flatten)]
    pub f1: Option<Enum1>,
    #[serde(flatten)]
    pub f2: Option<UnEnum>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_614 {
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: UnEnum,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_615 {
    #[serde(flatten)]
    pub f1: Option<Enum1>,
    #[serde(flatten)]
    pub f2: Inner2,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_616 {
    #[serde(flatten)]
    pub f1: Option<Enum1>,
    #[serde(flatten)]
    pub f2: Option<Inner2>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_617 {
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: Inner2,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_618 {
    #[serde(flatten)]
    pub f1: Option<Enum1>,
    #[serde(flatten)]
    pub f2: Nested1,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_619 {
    #[serde(flatten)]
    pub f1: Option<Enum1>,
    #[serde(flatten)]
    pub f2: Option<Nested1>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_620 {
    #[serde(flatten)]
    pub f1: Enum1,
    #[serde(flatten)]
    pub f2: Nested1,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_621 {
    #[serde(flatten)]
    pub f1: Option<UnEnum>,
    #[serde(flatten)]
    pub f2: Enum2,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_622 {
    #[serde(flatten)]
    pub f1: Option<UnEnum>,
    #[serde(flatten)]
    pub f2: Option<Enum2>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_623 {
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: Enum2,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_624 {
    #[serde(flatten)]
    pub f1: Option<UnEnum>,
    #[serde(flatten)]
    pub f2: UnEnum,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_625 {
    #[serde(flatten)]
    pub f1: Option<UnEnum>,
    #[serde(flatten)]
    pub f2: Option<UnEnum>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_626 {
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: UnEnum,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_627 {
    #[serde(flatten)]
    pub f1: Option<UnEnum>,
    #[serde(flatten)]
    pub f2: Inner2,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_628 {
    #[serde(flatten)]
    pub f1: Option<UnEnum>,
    #[serde(flatten)]
    pub f2: Option<Inner2>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_629 {
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: Inner2,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_630 {
    #[serde(flatten)]
    pub f1: Option<UnEnum>,
    #[serde(flatten)]
    pub f2: Nested1,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_631 {
    #[serde(flatten)]
    pub f1: Option<UnEnum>,
    #[serde(flatten)]
    pub f2: Option<Nested1>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_632 {
    #[serde(flatten)]
    pub f1: UnEnum,
    #[serde(flatten)]
    pub f2: Nested1,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_633 {
    #[serde(flatten)]
    pub f1: Option<Inner1>,
    #[serde(flatten)]
    pub f2: Enum2,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_634 {
    #[serde(flatten)]
    pub f1: Option<Inner1>,
    #[serde(flatten)]
    pub f2: Option<Enum2>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_635 {
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: Enum2,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_636 {
    #[serde(flatten)]
    pub f1: Option<Inner1>,
    #[serde(flatten)]
    pub f2: UnEnum,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_637 {
    #[serde(flatten)]
    pub f1: Option<Inner1>,
    #[serde(flatten)]
    pub f2: Option<UnEnum>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_638 {
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: UnEnum,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_639 {
    #[serde(flatten)]
    pub f1: Option<Inner1>,
    #[serde(flatten)]
    pub f2: Inner2,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_640 {
    #[serde(flatten)]
    pub f1: Option<Inner1>,
    #[serde(flatten)]
    pub f2: Option<Inner2>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_641 {
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: Inner2,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_642 {
    #[serde(flatten)]
    pub f1: Option<Inner1>,
    #[serde(flatten)]
    pub f2: Nested1,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_643 {
    #[serde(flatten)]
    pub f1: Option<Inner1>,
    #[serde(flatten)]
    pub f2: Option<Nested1>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_644 {
    #[serde(flatten)]
    pub f1: Inner1,
    #[serde(flatten)]
    pub f2: Nested1,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_645 {
    #[serde(flatten)]
    pub f1: Option<MapS>,
    #[serde(flatten)]
    pub f2: Enum2,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_646 {
    #[serde(flatten)]
    pub f1: Option<MapS>,
    #[serde(flatten)]
    pub f2: Option<Enum2>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_647 {
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: Enum2,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_648 {
    #[serde(flatten)]
    pub f1: Option<MapS>,
    #[serde(flatten)]
    pub f2: UnEnum,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_649 {
    #[serde(flatten)]
    pub f1: Option<MapS>,
    #[serde(flatten)]
    pub f2: Option<UnEnum>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_650 {
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: UnEnum,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_651 {
    #[serde(flatten)]
    pub f1: Option<MapS>,
    #[serde(flatten)]
    pub f2: Inner2,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_652 {
    #[serde(flatten)]
    pub f1: Option<MapS>,
    #[serde(flatten)]
    pub f2: Option<Inner2>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_653 {
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: Inner2,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_654 {
    #[serde(flatten)]
    pub f1: Option<MapS>,
    #[serde(flatten)]
    pub f2: Nested1,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_655 {
    #[serde(flatten)]
    pub f1: Option<MapS>,
    #[serde(flatten)]
    pub f2: Option<Nested1>,
    pub z: A,
}
#[derive(JsonSchema)]
pub struct W36_656 {
    #[serde(flatten)]
    pub f1: MapS,
    #[serde(flatten)]
    pub f2: Nested1,
    #[serde(flatten)]
    pub f3: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_657 {
    #[serde(flatten)]
    #[schemars(schema_with = "sw_obj")]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W36_658 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(!flatten)]
    pub b: Inner1,
}
#[derive(JsonSchema)]
pub struct W37_1 {
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W37_2 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_3(
    pub A,
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_4(
    pub A,
);
#[derive(JsonSchema)]
pub struct W37_5(
    pub A,
);
#[derive(JsonSchema)]
pub struct W37_6;
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_7(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_8(
    pub A,
);
#[derive(JsonSchema)]
pub enum W37_9 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_10 {
    Va,
    Vb(
        A,
    ),
    Vc {
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_11 {
    Va,
    Vb(
        A,
    ),
    Vc {
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_12 {
    Va,
    Vb(
        A,
    ),
    Vc {
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_13 {
    Va,
    Vb(
        A,
    ),
    Vc {
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_14 {
    pub a: A,
    #[deprecated]
    pub b: B,
}
#[derive(JsonSchema)]
#[deprecated]
pub struct W37_15 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_16 {
    #[deprecated]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_17 {
    pub a: A,
    #[schemars(title = "T1")]
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(title = "T1")]
pub struct W37_18 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_19(
    pub A,
    #[schemars(title = "T1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_20(
    #[schemars(title = "T1")]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(title = "T1")]
pub struct W37_21(
    pub A,
);
#[derive(JsonSchema)]
#[schemars(title = "T1")]
pub struct W37_22;
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(title = "T1")]
pub struct W37_23(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_24(
    #[schemars(title = "T1")]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(title = "T1")]
pub enum W37_25 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_26 {
    #[schemars(title = "T1")]
    Va,
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    #[schemars(title = "T1")]
    Vc {
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_27 {
    #[schemars(title = "T1")]
    Va,
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    #[schemars(title = "T1")]
    Vc {
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_28 {
    #[schemars(title = "T1")]
    Va,
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    #[schemars(title = "T1")]
    Vc {
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_29 {
    #[schemars(title = "T1")]
    Va,
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    #[schemars(title = "T1")]
    Vc {
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_30 {
    pub a: A,
    #[deprecated]
    #[schemars(title = "T1")]
    pub b: B,
}
#[derive(JsonSchema)]
#[deprecated]
#[schemars(title = "T1")]
pub struct W37_31 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_32 {
    #[deprecated]
    #[schemars(title = "T1")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_33 {
    pub a: A,
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(description = "D1")]
pub struct W37_34 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_35(
    pub A,
    #[schemars(description = "D1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_36(
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(description = "D1")]
pub struct W37_37(
    pub A,
);
#[derive(JsonSchema)]
#[schemars(description = "D1")]
pub struct W37_38;
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(description = "D1")]
pub struct W37_39(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_40(
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(description = "D1")]
pub enum W37_41 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_42 {
    #[schemars(description = "D1")]
    Va,
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    #[schemars(description = "D1")]
    Vc {
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_43 {
    #[schemars(description = "D1")]
    Va,
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    #[schemars(description = "D1")]
    Vc {
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_44 {
    #[schemars(description = "D1")]
    Va,
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    #[schemars(description = "D1")]
    Vc {
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_45 {
    #[schemars(description = "D1")]
    Va,
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    #[schemars(description = "D1")]
    Vc {
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_46 {
    pub a: A,
    #[deprecated]
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
#[deprecated]
#[schemars(description = "D1")]
pub struct W37_47 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_48 {
    #[deprecated]
    #[schemars(description = "D1")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_49 {
    pub a: A,
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_50 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_51(
    pub A,
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_52(
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_53(
    pub A,
);
#[derive(JsonSchema)]
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_54;
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_55(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_56(
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub enum W37_57 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_58 {
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_59 {
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_60 {
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_61 {
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_62 {
    pub a: A,
    #[deprecated]
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
#[deprecated]
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_63 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_64 {
    #[deprecated]
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_65 {
    pub a: A,
    #[schemars(example = 8)]
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(example = 8)]
pub struct W37_66 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_67(
    pub A,
    #[schemars(example = 8)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_68(
    #[schemars(example = 8)]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(example = 8)]
pub struct W37_69(
    pub A,
);
#[derive(JsonSchema)]
#[schemars(example = 8)]
pub struct W37_70;
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(example = 8)]
pub struct W37_71(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_72(
    #[schemars(example = 8)]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(example = 8)]
pub enum W37_73 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_74 {
    #[schemars(example = 8)]
    Va,
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    #[schemars(example = 8)]
    Vc {
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_75 {
    #[schemars(example = 8)]
    Va,
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    #[schemars(example = 8)]
    Vc {
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_76 {
    #[schemars(example = 8)]
    Va,
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    #[schemars(example = 8)]
    Vc {
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_77 {
    #[schemars(example = 8)]
    Va,
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    #[schemars(example = 8)]
    Vc {
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_78 {
    pub a: A,
    #[deprecated]
    #[schemars(example = 8)]
    pub b: B,
}
#[derive(JsonSchema)]
#[deprecated]
#[schemars(example = 8)]
pub struct W37_79 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_80 {
    #[deprecated]
    #[schemars(example = 8)]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_81 {
    pub a: A,
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_82 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_83(
    pub A,
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_84(
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_85(
    pub A,
);
#[derive(JsonSchema)]
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_86;
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_87(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_88(
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub enum W37_89 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_90 {
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_91 {
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_92 {
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_93 {
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_94 {
    pub a: A,
    #[deprecated]
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub b: B,
}
#[derive(JsonSchema)]
#[deprecated]
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_95 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_96 {
    #[deprecated]
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_97 {
    pub a: A,
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_98 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_99(
    pub A,
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_100(
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_101(
    pub A,
);
#[derive(JsonSchema)]
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_102;
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_103(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_104(
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub enum W37_105 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_106 {
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_107 {
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_108 {
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_109 {
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_110 {
    pub a: A,
    #[deprecated]
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub b: B,
}
#[derive(JsonSchema)]
#[deprecated]
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_111 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_112 {
    #[deprecated]
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_113 {
    pub a: A,
    #[schemars(transform = tr1)]
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(transform = tr1)]
pub struct W37_114 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_115(
    pub A,
    #[schemars(transform = tr1)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_116(
    #[schemars(transform = tr1)]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(transform = tr1)]
pub struct W37_117(
    pub A,
);
#[derive(JsonSchema)]
#[schemars(transform = tr1)]
pub struct W37_118;
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(transform = tr1)]
pub struct W37_119(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_120(
    #[schemars(transform = tr1)]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(transform = tr1)]
pub enum W37_121 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_122 {
    #[schemars(transform = tr1)]
    Va,
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    #[schemars(transform = tr1)]
    Vc {
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_123 {
    #[schemars(transform = tr1)]
    Va,
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    #[schemars(transform = tr1)]
    Vc {
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_124 {
    #[schemars(transform = tr1)]
    Va,
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    #[schemars(transform = tr1)]
    Vc {
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_125 {
    #[schemars(transform = tr1)]
    Va,
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    #[schemars(transform = tr1)]
    Vc {
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_126 {
    pub a: A,
    #[deprecated]
    #[schemars(transform = tr1)]
    pub b: B,
}
#[derive(JsonSchema)]
#[deprecated]
#[schemars(transform = tr1)]
pub struct W37_127 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_128 {
    #[deprecated]
    #[schemars(transform = tr1)]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_129 {
    pub a: A,
    #[schemars(title = "")]
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(title = "")]
pub struct W37_130 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_131(
    pub A,
    #[schemars(title = "")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_132(
    #[schemars(title = "")]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(title = "")]
pub struct W37_133(
    pub A,
);
#[derive(JsonSchema)]
#[schemars(title = "")]
pub struct W37_134;
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(title = "")]
pub struct W37_135(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_136(
    #[schemars(title = "")]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(title = "")]
pub enum W37_137 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_138 {
    #[schemars(title = "")]
    Va,
    #[schemars(title = "")]
    Vb(
        A,
    ),
    #[schemars(title = "")]
    Vc {
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_139 {
    #[schemars(title = "")]
    Va,
    #[schemars(title = "")]
    Vb(
        A,
    ),
    #[schemars(title = "")]
    Vc {
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_140 {
    #[schemars(title = "")]
    Va,
    #[schemars(title = "")]
    Vb(
        A,
    ),
    #[schemars(title = "")]
    Vc {
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_141 {
    #[schemars(title = "")]
    Va,
    #[schemars(title = "")]
    Vb(
        A,
    ),
    #[schemars(title = "")]
    Vc {
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_142 {
    pub a: A,
    #[deprecated]
    #[schemars(title = "")]
    pub b: B,
}
#[derive(JsonSchema)]
#[deprecated]
#[schemars(title = "")]
pub struct W37_143 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_144 {
    #[deprecated]
    #[schemars(title = "")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_145 {
    pub a: A,
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_146 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_147(
    pub A,
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_148(
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_149(
    pub A,
);
#[derive(JsonSchema)]
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_150;
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_151(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_152(
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub enum W37_153 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_154 {
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_155 {
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_156 {
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_157 {
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_158 {
    pub a: A,
    #[deprecated]
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub b: B,
}
#[derive(JsonSchema)]
#[deprecated]
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_159 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_160 {
    #[deprecated]
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_161 {
    pub a: A,
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_162 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_163(
    pub A,
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_164(
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_165(
    pub A,
);
#[derive(JsonSchema)]
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_166;
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_167(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_168(
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub enum W37_169 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_170 {
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_171 {
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_172 {
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_173 {
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_174 {
    pub a: A,
    #[schemars(description = "")]
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(description = "")]
pub struct W37_175 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_176(
    pub A,
    #[schemars(description = "")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_177(
    #[schemars(description = "")]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(description = "")]
pub struct W37_178(
    pub A,
);
#[derive(JsonSchema)]
#[schemars(description = "")]
pub struct W37_179;
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(description = "")]
pub struct W37_180(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_181(
    #[schemars(description = "")]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(description = "")]
pub enum W37_182 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_183 {
    #[schemars(description = "")]
    Va,
    #[schemars(description = "")]
    Vb(
        A,
    ),
    #[schemars(description = "")]
    Vc {
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_184 {
    #[schemars(description = "")]
    Va,
    #[schemars(description = "")]
    Vb(
        A,
    ),
    #[schemars(description = "")]
    Vc {
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_185 {
    #[schemars(description = "")]
    Va,
    #[schemars(description = "")]
    Vb(
        A,
    ),
    #[schemars(description = "")]
    Vc {
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_186 {
    #[schemars(description = "")]
    Va,
    #[schemars(description = "")]
    Vb(
        A,
    ),
    #[schemars(description = "")]
    Vc {
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_187 {
    pub a: A,
    #[deprecated]
    #[schemars(description = "")]
    pub b: B,
}
#[derive(JsonSchema)]
#[deprecated]
#[schemars(description = "")]
pub struct W37_188 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_189 {
    #[deprecated]
    #[schemars(description = "")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_190 {
    pub a: A,
    #[schemars(example = &"str lit")]
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(example = &"str lit")]
pub struct W37_191 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_192(
    pub A,
    #[schemars(example = &"str lit")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_193(
    #[schemars(example = &"str lit")]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(example = &"str lit")]
pub struct W37_194(
    pub A,
);
#[derive(JsonSchema)]
#[schemars(example = &"str lit")]
pub struct W37_195;
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(example = &"str lit")]
pub struct W37_196(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_197(
    #[schemars(example = &"str lit")]
    pub A,
);
#[derive(JsonSchema)]
#[schemars(example = &"str lit")]
pub enum W37_198 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_199 {
    #[schemars(example = &"str lit")]
    Va,
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    #[schemars(example = &"str lit")]
    Vc {
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_200 {
    #[schemars(example = &"str lit")]
    Va,
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    #[schemars(example = &"str lit")]
    Vc {
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_201 {
    #[schemars(example = &"str lit")]
    Va,
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    #[schemars(example = &"str lit")]
    Vc {
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_202 {
    #[schemars(example = &"str lit")]
    Va,
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    #[schemars(example = &"str lit")]
    Vc {
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_203 {
    pub a: A,
    #[deprecated]
    #[schemars(example = &"str lit")]
    pub b: B,
}
#[derive(JsonSchema)]
#[deprecated]
#[schemars(example = &"str lit")]
pub struct W37_204 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_205 {
    #[deprecated]
    #[schemars(example = &"str lit")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_206 {
    pub a: A,
    /// A doc.
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
pub struct W37_207 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_208(
    pub A,
    /// A doc.
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_209(
    /// A doc.
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
pub struct W37_210(
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
pub struct W37_211;
#[derive(JsonSchema)]
/// A doc.
#[serde(transparent)]
pub struct W37_212(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_213(
    /// A doc.
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
pub enum W37_214 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_215 {
    /// A doc.
    Va,
    /// A doc.
    Vb(
        A,
    ),
    /// A doc.
    Vc {
        /// A doc.
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_216 {
    /// A doc.
    Va,
    /// A doc.
    Vb(
        A,
    ),
    /// A doc.
    Vc {
        /// A doc.
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_217 {
    /// A doc.
    Va,
    /// A doc.
    Vb(
        A,
    ),
    /// A doc.
    Vc {
        /// A doc.
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_218 {
    /// A doc.
    Va,
    /// A doc.
    Vb(
        A,
    ),
    /// A doc.
    Vc {
        /// A doc.
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_219 {
    pub a: A,
    /// A doc.
    #[deprecated]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[deprecated]
pub struct W37_220 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_221 {
    /// A doc.
    #[deprecated]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_222 {
    pub a: A,
    /// A doc.
    #[schemars(title = "T1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = "T1")]
pub struct W37_223 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_224(
    pub A,
    /// A doc.
    #[schemars(title = "T1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_225(
    /// A doc.
    #[schemars(title = "T1")]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = "T1")]
pub struct W37_226(
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = "T1")]
pub struct W37_227;
#[derive(JsonSchema)]
/// A doc.
#[serde(transparent)]
#[schemars(title = "T1")]
pub struct W37_228(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_229(
    /// A doc.
    #[schemars(title = "T1")]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = "T1")]
pub enum W37_230 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_231 {
    /// A doc.
    #[schemars(title = "T1")]
    Va,
    /// A doc.
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = "T1")]
    Vc {
        /// A doc.
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_232 {
    /// A doc.
    #[schemars(title = "T1")]
    Va,
    /// A doc.
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = "T1")]
    Vc {
        /// A doc.
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_233 {
    /// A doc.
    #[schemars(title = "T1")]
    Va,
    /// A doc.
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = "T1")]
    Vc {
        /// A doc.
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_234 {
    /// A doc.
    #[schemars(title = "T1")]
    Va,
    /// A doc.
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = "T1")]
    Vc {
        /// A doc.
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_235 {
    pub a: A,
    /// A doc.
    #[deprecated]
    #[schemars(title = "T1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[deprecated]
#[schemars(title = "T1")]
pub struct W37_236 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_237 {
    /// A doc.
    #[deprecated]
    #[schemars(title = "T1")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_238 {
    pub a: A,
    /// A doc.
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[schemars(description = "D1")]
pub struct W37_239 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_240(
    pub A,
    /// A doc.
    #[schemars(description = "D1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_241(
    /// A doc.
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(description = "D1")]
pub struct W37_242(
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(description = "D1")]
pub struct W37_243;
#[derive(JsonSchema)]
/// A doc.
#[serde(transparent)]
#[schemars(description = "D1")]
pub struct W37_244(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_245(
    /// A doc.
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(description = "D1")]
pub enum W37_246 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_247 {
    /// A doc.
    #[schemars(description = "D1")]
    Va,
    /// A doc.
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(description = "D1")]
    Vc {
        /// A doc.
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_248 {
    /// A doc.
    #[schemars(description = "D1")]
    Va,
    /// A doc.
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(description = "D1")]
    Vc {
        /// A doc.
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_249 {
    /// A doc.
    #[schemars(description = "D1")]
    Va,
    /// A doc.
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(description = "D1")]
    Vc {
        /// A doc.
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_250 {
    /// A doc.
    #[schemars(description = "D1")]
    Va,
    /// A doc.
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(description = "D1")]
    Vc {
        /// A doc.
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_251 {
    pub a: A,
    /// A doc.
    #[deprecated]
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[deprecated]
#[schemars(description = "D1")]
pub struct W37_252 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_253 {
    /// A doc.
    #[deprecated]
    #[schemars(description = "D1")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_254 {
    pub a: A,
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_255 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_256(
    pub A,
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_257(
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_258(
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_259;
#[derive(JsonSchema)]
/// A doc.
#[serde(transparent)]
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_260(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_261(
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub enum W37_262 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_263 {
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        /// A doc.
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_264 {
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        /// A doc.
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_265 {
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        /// A doc.
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_266 {
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        /// A doc.
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_267 {
    pub a: A,
    /// A doc.
    #[deprecated]
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[deprecated]
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_268 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_269 {
    /// A doc.
    #[deprecated]
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_270 {
    pub a: A,
    /// A doc.
    #[schemars(example = 8)]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[schemars(example = 8)]
pub struct W37_271 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_272(
    pub A,
    /// A doc.
    #[schemars(example = 8)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_273(
    /// A doc.
    #[schemars(example = 8)]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(example = 8)]
pub struct W37_274(
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(example = 8)]
pub struct W37_275;
#[derive(JsonSchema)]
/// A doc.
#[serde(transparent)]
#[schemars(example = 8)]
pub struct W37_276(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_277(
    /// A doc.
    #[schemars(example = 8)]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(example = 8)]
pub enum W37_278 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_279 {
    /// A doc.
    #[schemars(example = 8)]
    Va,
    /// A doc.
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(example = 8)]
    Vc {
        /// A doc.
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_280 {
    /// A doc.
    #[schemars(example = 8)]
    Va,
    /// A doc.
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(example = 8)]
    Vc {
        /// A doc.
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_281 {
    /// A doc.
    #[schemars(example = 8)]
    Va,
    /// A doc.
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(example = 8)]
    Vc {
        /// A doc.
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_282 {
    /// A doc.
    #[schemars(example = 8)]
    Va,
    /// A doc.
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(example = 8)]
    Vc {
        /// A doc.
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_283 {
    pub a: A,
    /// A doc.
    #[deprecated]
    #[schemars(example = 8)]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[deprecated]
#[schemars(example = 8)]
pub struct W37_284 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_285 {
    /// A doc.
    #[deprecated]
    #[schemars(example = 8)]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_286 {
    pub a: A,
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_287 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_288(
    pub A,
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_289(
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_290(
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_291;
#[derive(JsonSchema)]
/// A doc.
#[serde(transparent)]
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_292(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_293(
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub enum W37_294 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_295 {
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        /// A doc.
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_296 {
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        /// A doc.
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_297 {
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        /// A doc.
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_298 {
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        /// A doc.
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_299 {
    pub a: A,
    /// A doc.
    #[deprecated]
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[deprecated]
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_300 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_301 {
    /// A doc.
    #[deprecated]
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_302 {
    pub a: A,
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_303 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_304(
    pub A,
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_305(
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_306(
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_307;
#[derive(JsonSchema)]
/// A doc.
#[serde(transparent)]
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_308(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_309(
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub enum W37_310 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_311 {
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        /// A doc.
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_312 {
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        /// A doc.
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_313 {
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        /// A doc.
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_314 {
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        /// A doc.
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_315 {
    pub a: A,
    /// A doc.
    #[deprecated]
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[deprecated]
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_316 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_317 {
    /// A doc.
    #[deprecated]
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_318 {
    pub a: A,
    /// A doc.
    #[schemars(transform = tr1)]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[schemars(transform = tr1)]
pub struct W37_319 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_320(
    pub A,
    /// A doc.
    #[schemars(transform = tr1)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_321(
    /// A doc.
    #[schemars(transform = tr1)]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(transform = tr1)]
pub struct W37_322(
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(transform = tr1)]
pub struct W37_323;
#[derive(JsonSchema)]
/// A doc.
#[serde(transparent)]
#[schemars(transform = tr1)]
pub struct W37_324(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_325(
    /// A doc.
    #[schemars(transform = tr1)]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(transform = tr1)]
pub enum W37_326 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_327 {
    /// A doc.
    #[schemars(transform = tr1)]
    Va,
    /// A doc.
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(transform = tr1)]
    Vc {
        /// A doc.
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_328 {
    /// A doc.
    #[schemars(transform = tr1)]
    Va,
    /// A doc.
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(transform = tr1)]
    Vc {
        /// A doc.
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_329 {
    /// A doc.
    #[schemars(transform = tr1)]
    Va,
    /// A doc.
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(transform = tr1)]
    Vc {
        /// A doc.
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_330 {
    /// A doc.
    #[schemars(transform = tr1)]
    Va,
    /// A doc.
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(transform = tr1)]
    Vc {
        /// A doc.
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_331 {
    pub a: A,
    /// A doc.
    #[deprecated]
    #[schemars(transform = tr1)]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[deprecated]
#[schemars(transform = tr1)]
pub struct W37_332 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_333 {
    /// A doc.
    #[deprecated]
    #[schemars(transform = tr1)]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_334 {
    pub a: A,
    /// A doc.
    #[schemars(title = "")]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = "")]
pub struct W37_335 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_336(
    pub A,
    /// A doc.
    #[schemars(title = "")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_337(
    /// A doc.
    #[schemars(title = "")]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = "")]
pub struct W37_338(
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = "")]
pub struct W37_339;
#[derive(JsonSchema)]
/// A doc.
#[serde(transparent)]
#[schemars(title = "")]
pub struct W37_340(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_341(
    /// A doc.
    #[schemars(title = "")]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = "")]
pub enum W37_342 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_343 {
    /// A doc.
    #[schemars(title = "")]
    Va,
    /// A doc.
    #[schemars(title = "")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = "")]
    Vc {
        /// A doc.
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_344 {
    /// A doc.
    #[schemars(title = "")]
    Va,
    /// A doc.
    #[schemars(title = "")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = "")]
    Vc {
        /// A doc.
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_345 {
    /// A doc.
    #[schemars(title = "")]
    Va,
    /// A doc.
    #[schemars(title = "")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = "")]
    Vc {
        /// A doc.
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_346 {
    /// A doc.
    #[schemars(title = "")]
    Va,
    /// A doc.
    #[schemars(title = "")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = "")]
    Vc {
        /// A doc.
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_347 {
    pub a: A,
    /// A doc.
    #[deprecated]
    #[schemars(title = "")]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[deprecated]
#[schemars(title = "")]
pub struct W37_348 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_349 {
    /// A doc.
    #[deprecated]
    #[schemars(title = "")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_350 {
    pub a: A,
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_351 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_352(
    pub A,
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_353(
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_354(
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_355;
#[derive(JsonSchema)]
/// A doc.
#[serde(transparent)]
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_356(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_357(
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub enum W37_358 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_359 {
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        /// A doc.
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_360 {
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        /// A doc.
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_361 {
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        /// A doc.
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_362 {
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        /// A doc.
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_363 {
    pub a: A,
    /// A doc.
    #[deprecated]
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[deprecated]
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_364 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_365 {
    /// A doc.
    #[deprecated]
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_366 {
    pub a: A,
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_367 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_368(
    pub A,
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_369(
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_370(
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_371;
#[derive(JsonSchema)]
/// A doc.
#[serde(transparent)]
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_372(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_373(
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub enum W37_374 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_375 {
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        /// A doc.
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_376 {
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        /// A doc.
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_377 {
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        /// A doc.
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_378 {
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        /// A doc.
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_379 {
    pub a: A,
    /// A doc.
    #[schemars(description = "")]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[schemars(description = "")]
pub struct W37_380 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_381(
    pub A,
    /// A doc.
    #[schemars(description = "")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_382(
    /// A doc.
    #[schemars(description = "")]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(description = "")]
pub struct W37_383(
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(description = "")]
pub struct W37_384;
#[derive(JsonSchema)]
/// A doc.
#[serde(transparent)]
#[schemars(description = "")]
pub struct W37_385(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_386(
    /// A doc.
    #[schemars(description = "")]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(description = "")]
pub enum W37_387 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_388 {
    /// A doc.
    #[schemars(description = "")]
    Va,
    /// A doc.
    #[schemars(description = "")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(description = "")]
    Vc {
        /// A doc.
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_389 {
    /// A doc.
    #[schemars(description = "")]
    Va,
    /// A doc.
    #[schemars(description = "")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(description = "")]
    Vc {
        /// A doc.
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_390 {
    /// A doc.
    #[schemars(description = "")]
    Va,
    /// A doc.
    #[schemars(description = "")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(description = "")]
    Vc {
        /// A doc.
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_391 {
    /// A doc.
    #[schemars(description = "")]
    Va,
    /// A doc.
    #[schemars(description = "")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(description = "")]
    Vc {
        /// A doc.
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_392 {
    pub a: A,
    /// A doc.
    #[deprecated]
    #[schemars(description = "")]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[deprecated]
#[schemars(description = "")]
pub struct W37_393 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_394 {
    /// A doc.
    #[deprecated]
    #[schemars(description = "")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_395 {
    pub a: A,
    /// A doc.
    #[schemars(example = &"str lit")]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[schemars(example = &"str lit")]
pub struct W37_396 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_397(
    pub A,
    /// A doc.
    #[schemars(example = &"str lit")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_398(
    /// A doc.
    #[schemars(example = &"str lit")]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(example = &"str lit")]
pub struct W37_399(
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(example = &"str lit")]
pub struct W37_400;
#[derive(JsonSchema)]
/// A doc.
#[serde(transparent)]
#[schemars(example = &"str lit")]
pub struct W37_401(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_402(
    /// A doc.
    #[schemars(example = &"str lit")]
    pub A,
);
#[derive(JsonSchema)]
/// A doc.
#[schemars(example = &"str lit")]
pub enum W37_403 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_404 {
    /// A doc.
    #[schemars(example = &"str lit")]
    Va,
    /// A doc.
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(example = &"str lit")]
    Vc {
        /// A doc.
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_405 {
    /// A doc.
    #[schemars(example = &"str lit")]
    Va,
    /// A doc.
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(example = &"str lit")]
    Vc {
        /// A doc.
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_406 {
    /// A doc.
    #[schemars(example = &"str lit")]
    Va,
    /// A doc.
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(example = &"str lit")]
    Vc {
        /// A doc.
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_407 {
    /// A doc.
    #[schemars(example = &"str lit")]
    Va,
    /// A doc.
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    /// A doc.
    #[schemars(example = &"str lit")]
    Vc {
        /// A doc.
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_408 {
    pub a: A,
    /// A doc.
    #[deprecated]
    #[schemars(example = &"str lit")]
    pub b: B,
}
#[derive(JsonSchema)]
/// A doc.
#[deprecated]
#[schemars(example = &"str lit")]
pub struct W37_409 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_410 {
    /// A doc.
    #[deprecated]
    #[schemars(example = &"str lit")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_411 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
pub struct W37_412 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_413(
    pub A,
    /// # Title
    ///
    /// Body text
    /// more.
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_414(
    /// # Title
    ///
    /// Body text
    /// more.
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
pub struct W37_415(
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
pub struct W37_416;
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[serde(transparent)]
pub struct W37_417(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_418(
    /// # Title
    ///
    /// Body text
    /// more.
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
pub enum W37_419 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_420 {
    /// # Title
    ///
    /// Body text
    /// more.
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_421 {
    /// # Title
    ///
    /// Body text
    /// more.
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_422 {
    /// # Title
    ///
    /// Body text
    /// more.
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_423 {
    /// # Title
    ///
    /// Body text
    /// more.
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_424 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[deprecated]
pub struct W37_425 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_426 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_427 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = "T1")]
pub struct W37_428 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_429(
    pub A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_430(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = "T1")]
pub struct W37_431(
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = "T1")]
pub struct W37_432;
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[serde(transparent)]
#[schemars(title = "T1")]
pub struct W37_433(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_434(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = "T1")]
pub enum W37_435 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_436 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_437 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_438 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_439 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_440 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(title = "T1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[deprecated]
#[schemars(title = "T1")]
pub struct W37_441 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_442 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(title = "T1")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_443 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(description = "D1")]
pub struct W37_444 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_445(
    pub A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_446(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(description = "D1")]
pub struct W37_447(
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(description = "D1")]
pub struct W37_448;
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[serde(transparent)]
#[schemars(description = "D1")]
pub struct W37_449(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_450(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(description = "D1")]
pub enum W37_451 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_452 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_453 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_454 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_455 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "D1")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_456 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[deprecated]
#[schemars(description = "D1")]
pub struct W37_457 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_458 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(description = "D1")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_459 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_460 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_461(
    pub A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_462(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_463(
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_464;
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[serde(transparent)]
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_465(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_466(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub enum W37_467 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_468 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_469 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_470 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_471 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_472 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[deprecated]
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_473 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_474 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_475 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(example = 8)]
pub struct W37_476 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_477(
    pub A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_478(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(example = 8)]
pub struct W37_479(
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(example = 8)]
pub struct W37_480;
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[serde(transparent)]
#[schemars(example = 8)]
pub struct W37_481(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_482(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(example = 8)]
pub enum W37_483 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_484 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_485 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_486 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_487 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_488 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(example = 8)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[deprecated]
#[schemars(example = 8)]
pub struct W37_489 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_490 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(example = 8)]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_491 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_492 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_493(
    pub A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_494(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_495(
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_496;
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[serde(transparent)]
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_497(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_498(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub enum W37_499 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_500 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_501 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_502 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_503 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_504 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[deprecated]
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_505 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_506 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_507 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_508 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_509(
    pub A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_510(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_511(
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_512;
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[serde(transparent)]
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_513(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_514(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub enum W37_515 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_516 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_517 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_518 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_519 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_520 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[deprecated]
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_521 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_522 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_523 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(transform = tr1)]
pub struct W37_524 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_525(
    pub A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_526(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(transform = tr1)]
pub struct W37_527(
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(transform = tr1)]
pub struct W37_528;
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[serde(transparent)]
#[schemars(transform = tr1)]
pub struct W37_529(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_530(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(transform = tr1)]
pub enum W37_531 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_532 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_533 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_534 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_535 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(transform = tr1)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_536 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(transform = tr1)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[deprecated]
#[schemars(transform = tr1)]
pub struct W37_537 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_538 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(transform = tr1)]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_539 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = "")]
pub struct W37_540 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_541(
    pub A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_542(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = "")]
pub struct W37_543(
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = "")]
pub struct W37_544;
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[serde(transparent)]
#[schemars(title = "")]
pub struct W37_545(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_546(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = "")]
pub enum W37_547 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_548 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_549 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_550 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_551 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = "")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_552 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(title = "")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[deprecated]
#[schemars(title = "")]
pub struct W37_553 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_554 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(title = "")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_555 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_556 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_557(
    pub A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_558(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_559(
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_560;
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[serde(transparent)]
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_561(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_562(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub enum W37_563 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_564 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_565 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_566 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_567 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_568 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[deprecated]
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_569 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_570 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_571 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_572 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_573(
    pub A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_574(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_575(
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_576;
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[serde(transparent)]
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_577(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_578(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub enum W37_579 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_580 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_581 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_582 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_583 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_584 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(description = "")]
pub struct W37_585 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_586(
    pub A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_587(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(description = "")]
pub struct W37_588(
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(description = "")]
pub struct W37_589;
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[serde(transparent)]
#[schemars(description = "")]
pub struct W37_590(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_591(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(description = "")]
pub enum W37_592 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_593 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_594 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_595 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_596 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(description = "")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_597 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(description = "")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[deprecated]
#[schemars(description = "")]
pub struct W37_598 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_599 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(description = "")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_600 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(example = &"str lit")]
pub struct W37_601 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_602(
    pub A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_603(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(example = &"str lit")]
pub struct W37_604(
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(example = &"str lit")]
pub struct W37_605;
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[serde(transparent)]
#[schemars(example = &"str lit")]
pub struct W37_606(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_607(
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    pub A,
);
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[schemars(example = &"str lit")]
pub enum W37_608 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_609 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_610 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_611 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_612 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    Va,
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    /// # Title
    ///
    /// Body text
    /// more.
    #[schemars(example = &"str lit")]
    Vc {
        /// # Title
        ///
        /// Body text
        /// more.
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_613 {
    pub a: A,
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(example = &"str lit")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Title
///
/// Body text
/// more.
#[deprecated]
#[schemars(example = &"str lit")]
pub struct W37_614 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_615 {
    /// # Title
    ///
    /// Body text
    /// more.
    #[deprecated]
    #[schemars(example = &"str lit")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_616 {
    pub a: A,
    /// # Only title
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
pub struct W37_617 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_618(
    pub A,
    /// # Only title
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_619(
    /// # Only title
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
pub struct W37_620(
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
pub struct W37_621;
#[derive(JsonSchema)]
/// # Only title
#[serde(transparent)]
pub struct W37_622(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_623(
    /// # Only title
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
pub enum W37_624 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_625 {
    /// # Only title
    Va,
    /// # Only title
    Vb(
        A,
    ),
    /// # Only title
    Vc {
        /// # Only title
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_626 {
    /// # Only title
    Va,
    /// # Only title
    Vb(
        A,
    ),
    /// # Only title
    Vc {
        /// # Only title
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_627 {
    /// # Only title
    Va,
    /// # Only title
    Vb(
        A,
    ),
    /// # Only title
    Vc {
        /// # Only title
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_628 {
    /// # Only title
    Va,
    /// # Only title
    Vb(
        A,
    ),
    /// # Only title
    Vc {
        /// # Only title
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_629 {
    pub a: A,
    /// # Only title
    #[deprecated]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[deprecated]
pub struct W37_630 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_631 {
    /// # Only title
    #[deprecated]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_632 {
    pub a: A,
    /// # Only title
    #[schemars(title = "T1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = "T1")]
pub struct W37_633 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_634(
    pub A,
    /// # Only title
    #[schemars(title = "T1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_635(
    /// # Only title
    #[schemars(title = "T1")]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = "T1")]
pub struct W37_636(
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = "T1")]
pub struct W37_637;
#[derive(JsonSchema)]
/// # Only title
#[serde(transparent)]
#[schemars(title = "T1")]
pub struct W37_638(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_639(
    /// # Only title
    #[schemars(title = "T1")]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = "T1")]
pub enum W37_640 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_641 {
    /// # Only title
    #[schemars(title = "T1")]
    Va,
    /// # Only title
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = "T1")]
    Vc {
        /// # Only title
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_642 {
    /// # Only title
    #[schemars(title = "T1")]
    Va,
    /// # Only title
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = "T1")]
    Vc {
        /// # Only title
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_643 {
    /// # Only title
    #[schemars(title = "T1")]
    Va,
    /// # Only title
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = "T1")]
    Vc {
        /// # Only title
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_644 {
    /// # Only title
    #[schemars(title = "T1")]
    Va,
    /// # Only title
    #[schemars(title = "T1")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = "T1")]
    Vc {
        /// # Only title
        #[schemars(title = "T1")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_645 {
    pub a: A,
    /// # Only title
    #[deprecated]
    #[schemars(title = "T1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[deprecated]
#[schemars(title = "T1")]
pub struct W37_646 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_647 {
    /// # Only title
    #[deprecated]
    #[schemars(title = "T1")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_648 {
    pub a: A,
    /// # Only title
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[schemars(description = "D1")]
pub struct W37_649 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_650(
    pub A,
    /// # Only title
    #[schemars(description = "D1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_651(
    /// # Only title
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(description = "D1")]
pub struct W37_652(
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(description = "D1")]
pub struct W37_653;
#[derive(JsonSchema)]
/// # Only title
#[serde(transparent)]
#[schemars(description = "D1")]
pub struct W37_654(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_655(
    /// # Only title
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(description = "D1")]
pub enum W37_656 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_657 {
    /// # Only title
    #[schemars(description = "D1")]
    Va,
    /// # Only title
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(description = "D1")]
    Vc {
        /// # Only title
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_658 {
    /// # Only title
    #[schemars(description = "D1")]
    Va,
    /// # Only title
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(description = "D1")]
    Vc {
        /// # Only title
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_659 {
    /// # Only title
    #[schemars(description = "D1")]
    Va,
    /// # Only title
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(description = "D1")]
    Vc {
        /// # Only title
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_660 {
    /// # Only title
    #[schemars(description = "D1")]
    Va,
    /// # Only title
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(description = "D1")]
    Vc {
        /// # Only title
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_661 {
    pub a: A,
    /// # Only title
    #[deprecated]
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[deprecated]
#[schemars(description = "D1")]
pub struct W37_662 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_663 {
    /// # Only title
    #[deprecated]
    #[schemars(description = "D1")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_664 {
    pub a: A,
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_665 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_666(
    pub A,
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_667(
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_668(
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_669;
#[derive(JsonSchema)]
/// # Only title
#[serde(transparent)]
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_670(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_671(
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub enum W37_672 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_673 {
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        /// # Only title
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_674 {
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        /// # Only title
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_675 {
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        /// # Only title
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_676 {
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Vc {
        /// # Only title
        #[schemars(title = "T1")]
        #[schemars(description = "D1")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_677 {
    pub a: A,
    /// # Only title
    #[deprecated]
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[deprecated]
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_678 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_679 {
    /// # Only title
    #[deprecated]
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_680 {
    pub a: A,
    /// # Only title
    #[schemars(example = 8)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[schemars(example = 8)]
pub struct W37_681 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_682(
    pub A,
    /// # Only title
    #[schemars(example = 8)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_683(
    /// # Only title
    #[schemars(example = 8)]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(example = 8)]
pub struct W37_684(
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(example = 8)]
pub struct W37_685;
#[derive(JsonSchema)]
/// # Only title
#[serde(transparent)]
#[schemars(example = 8)]
pub struct W37_686(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_687(
    /// # Only title
    #[schemars(example = 8)]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(example = 8)]
pub enum W37_688 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_689 {
    /// # Only title
    #[schemars(example = 8)]
    Va,
    /// # Only title
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(example = 8)]
    Vc {
        /// # Only title
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_690 {
    /// # Only title
    #[schemars(example = 8)]
    Va,
    /// # Only title
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(example = 8)]
    Vc {
        /// # Only title
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_691 {
    /// # Only title
    #[schemars(example = 8)]
    Va,
    /// # Only title
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(example = 8)]
    Vc {
        /// # Only title
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_692 {
    /// # Only title
    #[schemars(example = 8)]
    Va,
    /// # Only title
    #[schemars(example = 8)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(example = 8)]
    Vc {
        /// # Only title
        #[schemars(example = 8)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_693 {
    pub a: A,
    /// # Only title
    #[deprecated]
    #[schemars(example = 8)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[deprecated]
#[schemars(example = 8)]
pub struct W37_694 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_695 {
    /// # Only title
    #[deprecated]
    #[schemars(example = 8)]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_696 {
    pub a: A,
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_697 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_698(
    pub A,
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_699(
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_700(
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_701;
#[derive(JsonSchema)]
/// # Only title
#[serde(transparent)]
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_702(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_703(
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub enum W37_704 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_705 {
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        /// # Only title
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_706 {
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        /// # Only title
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_707 {
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        /// # Only title
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_708 {
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Vc {
        /// # Only title
        #[schemars(example = 8)]
        #[schemars(example = mk_ex())]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_709 {
    pub a: A,
    /// # Only title
    #[deprecated]
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[deprecated]
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_710 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_711 {
    /// # Only title
    #[deprecated]
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_712 {
    pub a: A,
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_713 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_714(
    pub A,
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_715(
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_716(
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_717;
#[derive(JsonSchema)]
/// # Only title
#[serde(transparent)]
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_718(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_719(
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub enum W37_720 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_721 {
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        /// # Only title
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_722 {
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        /// # Only title
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_723 {
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        /// # Only title
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_724 {
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Vc {
        /// # Only title
        #[schemars(extend("x-a" = 1, "title" = "XT"))]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_725 {
    pub a: A,
    /// # Only title
    #[deprecated]
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[deprecated]
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_726 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_727 {
    /// # Only title
    #[deprecated]
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_728 {
    pub a: A,
    /// # Only title
    #[schemars(transform = tr1)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[schemars(transform = tr1)]
pub struct W37_729 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_730(
    pub A,
    /// # Only title
    #[schemars(transform = tr1)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_731(
    /// # Only title
    #[schemars(transform = tr1)]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(transform = tr1)]
pub struct W37_732(
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(transform = tr1)]
pub struct W37_733;
#[derive(JsonSchema)]
/// # Only title
#[serde(transparent)]
#[schemars(transform = tr1)]
pub struct W37_734(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_735(
    /// # Only title
    #[schemars(transform = tr1)]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(transform = tr1)]
pub enum W37_736 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_737 {
    /// # Only title
    #[schemars(transform = tr1)]
    Va,
    /// # Only title
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(transform = tr1)]
    Vc {
        /// # Only title
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_738 {
    /// # Only title
    #[schemars(transform = tr1)]
    Va,
    /// # Only title
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(transform = tr1)]
    Vc {
        /// # Only title
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_739 {
    /// # Only title
    #[schemars(transform = tr1)]
    Va,
    /// # Only title
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(transform = tr1)]
    Vc {
        /// # Only title
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_740 {
    /// # Only title
    #[schemars(transform = tr1)]
    Va,
    /// # Only title
    #[schemars(transform = tr1)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(transform = tr1)]
    Vc {
        /// # Only title
        #[schemars(transform = tr1)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_741 {
    pub a: A,
    /// # Only title
    #[deprecated]
    #[schemars(transform = tr1)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[deprecated]
#[schemars(transform = tr1)]
pub struct W37_742 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_743 {
    /// # Only title
    #[deprecated]
    #[schemars(transform = tr1)]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_744 {
    pub a: A,
    /// # Only title
    #[schemars(title = "")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = "")]
pub struct W37_745 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_746(
    pub A,
    /// # Only title
    #[schemars(title = "")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_747(
    /// # Only title
    #[schemars(title = "")]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = "")]
pub struct W37_748(
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = "")]
pub struct W37_749;
#[derive(JsonSchema)]
/// # Only title
#[serde(transparent)]
#[schemars(title = "")]
pub struct W37_750(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_751(
    /// # Only title
    #[schemars(title = "")]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = "")]
pub enum W37_752 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_753 {
    /// # Only title
    #[schemars(title = "")]
    Va,
    /// # Only title
    #[schemars(title = "")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = "")]
    Vc {
        /// # Only title
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_754 {
    /// # Only title
    #[schemars(title = "")]
    Va,
    /// # Only title
    #[schemars(title = "")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = "")]
    Vc {
        /// # Only title
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_755 {
    /// # Only title
    #[schemars(title = "")]
    Va,
    /// # Only title
    #[schemars(title = "")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = "")]
    Vc {
        /// # Only title
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_756 {
    /// # Only title
    #[schemars(title = "")]
    Va,
    /// # Only title
    #[schemars(title = "")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = "")]
    Vc {
        /// # Only title
        #[schemars(title = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_757 {
    pub a: A,
    /// # Only title
    #[deprecated]
    #[schemars(title = "")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[deprecated]
#[schemars(title = "")]
pub struct W37_758 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_759 {
    /// # Only title
    #[deprecated]
    #[schemars(title = "")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_760 {
    pub a: A,
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_761 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_762(
    pub A,
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_763(
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_764(
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_765;
#[derive(JsonSchema)]
/// # Only title
#[serde(transparent)]
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_766(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_767(
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub enum W37_768 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_769 {
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        /// # Only title
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_770 {
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        /// # Only title
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_771 {
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        /// # Only title
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_772 {
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Vc {
        /// # Only title
        #[schemars(title = TITLE_C)]
        #[schemars(description = DESC_C)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_773 {
    pub a: A,
    /// # Only title
    #[deprecated]
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[deprecated]
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_774 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_775 {
    /// # Only title
    #[deprecated]
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_776 {
    pub a: A,
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_777 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_778(
    pub A,
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_779(
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_780(
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_781;
#[derive(JsonSchema)]
/// # Only title
#[serde(transparent)]
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_782(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_783(
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub enum W37_784 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_785 {
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        /// # Only title
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_786 {
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        /// # Only title
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_787 {
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        /// # Only title
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_788 {
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Va,
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    Vc {
        /// # Only title
        #[schemars(extend("x-a" = {"k": [1, null]}))]
        #[schemars(extend("x-b" = true))]
        #[schemars(transform = tr1)]
        #[schemars(transform = tr2)]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_789 {
    pub a: A,
    /// # Only title
    #[schemars(description = "")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[schemars(description = "")]
pub struct W37_790 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_791(
    pub A,
    /// # Only title
    #[schemars(description = "")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_792(
    /// # Only title
    #[schemars(description = "")]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(description = "")]
pub struct W37_793(
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(description = "")]
pub struct W37_794;
#[derive(JsonSchema)]
/// # Only title
#[serde(transparent)]
#[schemars(description = "")]
pub struct W37_795(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_796(
    /// # Only title
    #[schemars(description = "")]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(description = "")]
pub enum W37_797 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_798 {
    /// # Only title
    #[schemars(description = "")]
    Va,
    /// # Only title
    #[schemars(description = "")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(description = "")]
    Vc {
        /// # Only title
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_799 {
    /// # Only title
    #[schemars(description = "")]
    Va,
    /// # Only title
    #[schemars(description = "")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(description = "")]
    Vc {
        /// # Only title
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_800 {
    /// # Only title
    #[schemars(description = "")]
    Va,
    /// # Only title
    #[schemars(description = "")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(description = "")]
    Vc {
        /// # Only title
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_801 {
    /// # Only title
    #[schemars(description = "")]
    Va,
    /// # Only title
    #[schemars(description = "")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(description = "")]
    Vc {
        /// # Only title
        #[schemars(description = "")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_802 {
    pub a: A,
    /// # Only title
    #[deprecated]
    #[schemars(description = "")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[deprecated]
#[schemars(description = "")]
pub struct W37_803 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_804 {
    /// # Only title
    #[deprecated]
    #[schemars(description = "")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_805 {
    pub a: A,
    /// # Only title
    #[schemars(example = &"str lit")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[schemars(example = &"str lit")]
pub struct W37_806 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_807(
    pub A,
    /// # Only title
    #[schemars(example = &"str lit")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_808(
    /// # Only title
    #[schemars(example = &"str lit")]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(example = &"str lit")]
pub struct W37_809(
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(example = &"str lit")]
pub struct W37_810;
#[derive(JsonSchema)]
/// # Only title
#[serde(transparent)]
#[schemars(example = &"str lit")]
pub struct W37_811(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W37_812(
    /// # Only title
    #[schemars(example = &"str lit")]
    pub A,
);
#[derive(JsonSchema)]
/// # Only title
#[schemars(example = &"str lit")]
pub enum W37_813 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub enum W37_814 {
    /// # Only title
    #[schemars(example = &"str lit")]
    Va,
    /// # Only title
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(example = &"str lit")]
    Vc {
        /// # Only title
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_815 {
    /// # Only title
    #[schemars(example = &"str lit")]
    Va,
    /// # Only title
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(example = &"str lit")]
    Vc {
        /// # Only title
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_816 {
    /// # Only title
    #[schemars(example = &"str lit")]
    Va,
    /// # Only title
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(example = &"str lit")]
    Vc {
        /// # Only title
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_817 {
    /// # Only title
    #[schemars(example = &"str lit")]
    Va,
    /// # Only title
    #[schemars(example = &"str lit")]
    Vb(
        A,
    ),
    /// # Only title
    #[schemars(example = &"str lit")]
    Vc {
        /// # Only title
        #[schemars(example = &"str lit")]
        q: B,
    },
}
#[derive(JsonSchema)]
pub struct W37_818 {
    pub a: A,
    /// # Only title
    #[deprecated]
    #[schemars(example = &"str lit")]
    pub b: B,
}
#[derive(JsonSchema)]
/// # Only title
#[deprecated]
#[schemars(example = &"str lit")]
pub struct W37_819 {
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W37_820 {
    /// # Only title
    #[deprecated]
    #[schemars(example = &"str lit")]
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_821 {
    pub a: A,
    ///
    pub b: B,
}
#[derive(JsonSchema)]
///
pub struct W37_822 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_823(
    pub A,
    ///
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_824(
    ///
    pub A,
);
#[derive(JsonSchema)]
///
pub struct W37_825(
    pub A,
);
#[derive(JsonSchema)]
///
pub struct W37_826;
#[derive(JsonSchema)]
///
pub enum W37_827 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_828 {
    pub a: A,
    ///
    #[schemars(title = "T1")]
    pub b: B,
}
#[derive(JsonSchema)]
///
#[schemars(title = "T1")]
pub struct W37_829 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_830(
    pub A,
    ///
    #[schemars(title = "T1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_831(
    ///
    #[schemars(title = "T1")]
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(title = "T1")]
pub struct W37_832(
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(title = "T1")]
pub struct W37_833;
#[derive(JsonSchema)]
///
#[schemars(title = "T1")]
pub enum W37_834 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_835 {
    pub a: A,
    ///
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
///
#[schemars(description = "D1")]
pub struct W37_836 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_837(
    pub A,
    ///
    #[schemars(description = "D1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_838(
    ///
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(description = "D1")]
pub struct W37_839(
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(description = "D1")]
pub struct W37_840;
#[derive(JsonSchema)]
///
#[schemars(description = "D1")]
pub enum W37_841 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_842 {
    pub a: A,
    ///
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub b: B,
}
#[derive(JsonSchema)]
///
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_843 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_844(
    pub A,
    ///
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_845(
    ///
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_846(
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub struct W37_847;
#[derive(JsonSchema)]
///
#[schemars(title = "T1")]
#[schemars(description = "D1")]
pub enum W37_848 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_849 {
    pub a: A,
    ///
    #[schemars(example = 8)]
    pub b: B,
}
#[derive(JsonSchema)]
///
#[schemars(example = 8)]
pub struct W37_850 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_851(
    pub A,
    ///
    #[schemars(example = 8)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_852(
    ///
    #[schemars(example = 8)]
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(example = 8)]
pub struct W37_853(
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(example = 8)]
pub struct W37_854;
#[derive(JsonSchema)]
///
#[schemars(example = 8)]
pub enum W37_855 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_856 {
    pub a: A,
    ///
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub b: B,
}
#[derive(JsonSchema)]
///
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_857 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_858(
    pub A,
    ///
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_859(
    ///
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_860(
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub struct W37_861;
#[derive(JsonSchema)]
///
#[schemars(example = 8)]
#[schemars(example = mk_ex())]
pub enum W37_862 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_863 {
    pub a: A,
    ///
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub b: B,
}
#[derive(JsonSchema)]
///
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_864 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_865(
    pub A,
    ///
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_866(
    ///
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_867(
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub struct W37_868;
#[derive(JsonSchema)]
///
#[schemars(extend("x-a" = 1, "title" = "XT"))]
pub enum W37_869 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_870 {
    pub a: A,
    ///
    #[schemars(transform = tr1)]
    pub b: B,
}
#[derive(JsonSchema)]
///
#[schemars(transform = tr1)]
pub struct W37_871 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_872(
    pub A,
    ///
    #[schemars(transform = tr1)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_873(
    ///
    #[schemars(transform = tr1)]
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(transform = tr1)]
pub struct W37_874(
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(transform = tr1)]
pub struct W37_875;
#[derive(JsonSchema)]
///
#[schemars(transform = tr1)]
pub enum W37_876 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_877 {
    pub a: A,
    ///
    #[schemars(title = "")]
    pub b: B,
}
#[derive(JsonSchema)]
///
#[schemars(title = "")]
pub struct W37_878 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_879(
    pub A,
    ///
    #[schemars(title = "")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_880(
    ///
    #[schemars(title = "")]
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(title = "")]
pub struct W37_881(
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(title = "")]
pub struct W37_882;
#[derive(JsonSchema)]
///
#[schemars(title = "")]
pub enum W37_883 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_884 {
    pub a: A,
    ///
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub b: B,
}
#[derive(JsonSchema)]
///
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_885 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_886(
    pub A,
    ///
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_887(
    ///
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_888(
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub struct W37_889;
#[derive(JsonSchema)]
///
#[schemars(title = TITLE_C)]
#[schemars(description = DESC_C)]
pub enum W37_890 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_891 {
    pub a: A,
    ///
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub b: B,
}
#[derive(JsonSchema)]
///
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_892 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_893(
    pub A,
    ///
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_894(
    ///
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_895(
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub struct W37_896;
#[derive(JsonSchema)]
///
#[schemars(extend("x-a" = {"k": [1, null]}))]
#[schemars(extend("x-b" = true))]
#[schemars(transform = tr1)]
#[schemars(transform = tr2)]
pub enum W37_897 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_898 {
    pub a: A,
    ///
    #[schemars(description = "")]
    pub b: B,
}
#[derive(JsonSchema)]
///
#[schemars(description = "")]
pub struct W37_899 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_900(
    pub A,
    ///
    #[schemars(description = "")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_901(
    ///
    #[schemars(description = "")]
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(description = "")]
pub struct W37_902(
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(description = "")]
pub struct W37_903;
#[derive(JsonSchema)]
///
#[schemars(description = "")]
pub enum W37_904 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_905 {
    pub a: A,
    ///
    #[schemars(example = &"str lit")]
    pub b: B,
}
#[derive(JsonSchema)]
///
#[schemars(example = &"str lit")]
pub struct W37_906 {
    pub a: A,
}
#[derive(JsonSchema)]
/// outer
pub struct W37_907(
    pub A,
    ///
    #[schemars(example = &"str lit")]
    pub B,
);
#[derive(JsonSchema)]
pub struct W37_908(
    ///
    #[schemars(example = &"str lit")]
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(example = &"str lit")]
pub struct W37_909(
    pub A,
);
#[derive(JsonSchema)]
///
#[schemars(example = &"str lit")]
pub struct W37_910;
#[derive(JsonSchema)]
///
#[schemars(example = &"str lit")]
pub enum W37_911 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
pub struct W37_912 {
    /// Field doc.
    pub a: TT,
}
#[derive(JsonSchema)]
pub struct W37_913 {
    /// Field doc.
    #[schemars(title = "T1")]
    pub a: TT,
}
#[derive(JsonSchema)]
pub struct W37_914 {
    /// Field doc.
    #[schemars(description = "D1")]
    pub a: TT,
}
#[derive(JsonSchema)]
pub struct W37_915 {
    /// Field doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub a: TT,
}
#[derive(JsonSchema)]
pub struct W37_916 {
    /// Field doc.
    #[schemars(example = 8)]
    pub a: TT,
}
#[derive(JsonSchema)]
pub struct W37_917 {
    /// Field doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub a: TT,
}
#[derive(JsonSchema)]
pub struct W37_918 {
    /// Field doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub a: TT,
}
#[derive(JsonSchema)]
pub struct W37_919 {
    /// Field doc.
    #[schemars(transform = tr1)]
    pub a: TT,
}
#[derive(JsonSchema)]
pub struct W37_920 {
    /// Field doc.
    #[schemars(title = "")]
    pub a: TT,
}
#[derive(JsonSchema)]
pub struct W37_921 {
    /// Field doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub a: TT,
}
#[derive(JsonSchema)]
pub struct W37_922 {
    /// Field doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub a: TT,
}
#[derive(JsonSchema)]
pub struct W37_923 {
    /// Field doc.
    #[schemars(description = "")]
    pub a: TT,
}
#[derive(JsonSchema)]
pub struct W37_924 {
    /// Field doc.
    #[schemars(example = &"str lit")]
    pub a: TT,
}
#[derive(JsonSchema)]
pub struct W37_925 {
    /// Field doc.
    pub a: FF,
}
#[derive(JsonSchema)]
pub struct W37_926 {
    /// Field doc.
    #[schemars(title = "T1")]
    pub a: FF,
}
#[derive(JsonSchema)]
pub struct W37_927 {
    /// Field doc.
    #[schemars(description = "D1")]
    pub a: FF,
}
#[derive(JsonSchema)]
pub struct W37_928 {
    /// Field doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub a: FF,
}
#[derive(JsonSchema)]
pub struct W37_929 {
    /// Field doc.
    #[schemars(example = 8)]
    pub a: FF,
}
#[derive(JsonSchema)]
pub struct W37_930 {
    /// Field doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub a: FF,
}
#[derive(JsonSchema)]
pub struct W37_931 {
    /// Field doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub a: FF,
}
#[derive(JsonSchema)]
pub struct W37_932 {
    /// Field doc.
    #[schemars(transform = tr1)]
    pub a: FF,
}
#[derive(JsonSchema)]
pub struct W37_933 {
    /// Field doc.
    #[schemars(title = "")]
    pub a: FF,
}
#[derive(JsonSchema)]
pub struct W37_934 {
    /// Field doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub a: FF,
}
#[derive(JsonSchema)]
pub struct W37_935 {
    /// Field doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub a: FF,
}
#[derive(JsonSchema)]
pub struct W37_936 {
    /// Field doc.
    #[schemars(description = "")]
    pub a: FF,
}
#[derive(JsonSchema)]
pub struct W37_937 {
    /// Field doc.
    #[schemars(example = &"str lit")]
    pub a: FF,
}
#[derive(JsonSchema)]
pub struct W37_938 {
    /// Field doc.
    pub a: Refd,
}
#[derive(JsonSchema)]
pub struct W37_939 {
    /// Field doc.
    #[schemars(title = "T1")]
    pub a: Refd,
}
#[derive(JsonSchema)]
pub struct W37_940 {
    /// Field doc.
    #[schemars(description = "D1")]
    pub a: Refd,
}
#[derive(JsonSchema)]
pub struct W37_941 {
    /// Field doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub a: Refd,
}
#[derive(JsonSchema)]
pub struct W37_942 {
    /// Field doc.
    #[schemars(example = 8)]
    pub a: Refd,
}
#[derive(JsonSchema)]
pub struct W37_943 {
    /// Field doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub a: Refd,
}
#[derive(JsonSchema)]
pub struct W37_944 {
    /// Field doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub a: Refd,
}
#[derive(JsonSchema)]
pub struct W37_945 {
    /// Field doc.
    #[schemars(transform = tr1)]
    pub a: Refd,
}
#[derive(JsonSchema)]
pub struct W37_946 {
    /// Field doc.
    #[schemars(title = "")]
    pub a: Refd,
}
#[derive(JsonSchema)]
pub struct W37_947 {
    /// Field doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub a: Refd,
}
#[derive(JsonSchema)]
pub struct W37_948 {
    /// Field doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub a: Refd,
}
#[derive(JsonSchema)]
pub struct W37_949 {
    /// Field doc.
    #[schemars(description = "")]
    pub a: Refd,
}
#[derive(JsonSchema)]
pub struct W37_950 {
    /// Field doc.
    #[schemars(example = &"str lit")]
    pub a: Refd,
}
#[derive(JsonSchema)]
pub struct W37_951 {
    /// Field doc.
    pub a: Option<A>,
}
#[derive(JsonSchema)]
pub struct W37_952 {
    /// Field doc.
    #[schemars(title = "T1")]
    pub a: Option<A>,
}
#[derive(JsonSchema)]
pub struct W37_953 {
    /// Field doc.
    #[schemars(description = "D1")]
    pub a: Option<A>,
}
#[derive(JsonSchema)]
pub struct W37_954 {
    /// Field doc.
    #[schemars(title = "T1")]
    #[schemars(description = "D1")]
    pub a: Option<A>,
}
#[derive(JsonSchema)]
pub struct W37_955 {
    /// Field doc.
    #[schemars(example = 8)]
    pub a: Option<A>,
}
#[derive(JsonSchema)]
pub struct W37_956 {
    /// Field doc.
    #[schemars(example = 8)]
    #[schemars(example = mk_ex())]
    pub a: Option<A>,
}
#[derive(JsonSchema)]
pub struct W37_957 {
    /// Field doc.
    #[schemars(extend("x-a" = 1, "title" = "XT"))]
    pub a: Option<A>,
}
#[derive(JsonSchema)]
pub struct W37_958 {
    /// Field doc.
    #[schemars(transform = tr1)]
    pub a: Option<A>,
}
#[derive(JsonSchema)]
pub struct W37_959 {
    /// Field doc.
    #[schemars(title = "")]
    pub a: Option<A>,
}
#[derive(JsonSchema)]
pub struct W37_960 {
    /// Field doc.
    #[schemars(title = TITLE_C)]
    #[schemars(description = DESC_C)]
    pub a: Option<A>,
}
#[derive(JsonSchema)]
pub struct W37_961 {
    /// Field doc.
    #[schemars(extend("x-a" = {"k": [1, null]}))]
    #[schemars(extend("x-b" = true))]
    #[schemars(transform = tr1)]
    #[schemars(transform = tr2)]
    pub a: Option<A>,
}
#[derive(JsonSchema)]
pub struct W37_962 {
    /// Field doc.
    #[schemars(description = "")]
    pub a: Option<A>,
}
#[derive(JsonSchema)]
pub struct W37_963 {
    /// Field doc.
    #[schemars(example = &"str lit")]
    pub a: Option<A>,
}
#[derive(JsonSchema)]
pub struct W37_964 {
    #[serde(default)]
    pub f0: u32,
    #[serde(default)]
    pub f1: String,
    #[serde(default)]
    pub f2: bool,
    #[serde(default)]
    pub f3: Option<u32>,
    #[serde(default)]
    pub f4: A,
    #[serde(default)]
    pub f5: NoSer,
    #[serde(default)]
    pub f6: FailSer,
    #[serde(default)]
    pub f7: Vec<u32>,
}
#[derive(JsonSchema)]
pub struct W37_965 {
    #[serde(default = "dflt_u")]
    pub f0: u32,
    #[serde(default = "dflt_s")]
    pub f1: String,
    #[serde(default = "dflt_b")]
    pub f2: bool,
    #[serde(default = "dflt_ou")]
    pub f3: Option<u32>,
    #[serde(default = "dflt_a")]
    pub f4: A,
    #[serde(default = "dflt_ns")]
    pub f5: NoSer,
    #[serde(default = "dflt_fs")]
    pub f6: FailSer,
    #[serde(default = "dflt_v")]
    pub f7: Vec<u32>,
}
#[derive(JsonSchema)]
pub struct W37_966 {
    #[schemars(default = "dflt_u")]
    pub f0: u32,
    #[schemars(default = "dflt_s")]
    pub f1: String,
    #[schemars(default = "dflt_b")]
    pub f2: bool,
    #[schemars(default = "dflt_ou")]
    pub f3: Option<u32>,
    #[schemars(default = "dflt_a")]
    pub f4: A,
    #[schemars(default = "dflt_ns")]
    pub f5: NoSer,
    #[schemars(default = "dflt_fs")]
    pub f6: FailSer,
    #[schemars(default = "dflt_v")]
    pub f7: Vec<u32>,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W37_967 {
    pub f0: u32,
    pub f1: String,
    pub f2: bool,
    pub f3: Option<u32>,
    pub f4: A,
    pub f5: NoSer,
    pub f6: FailSer,
    pub f7: Vec<u32>,
}
#[derive(JsonSchema)]
#[serde(default)]
pub struct W37_own {
    pub f0: u32,
    pub f1: String,
    #[serde(default = "dflt_u")]
    pub f2: u32,
    #[serde(default)]
    pub f3: u32,
}
#[derive(JsonSchema)]
#[serde(default = "mk_w37")]
pub struct W37_path {
    pub f0: u32,
    pub f1: String,
    #[serde(default = "dflt_u")]
    pub f2: u32,
}
#[derive(JsonSchema)]
pub struct W37_968 {
    #[serde(default = "dflt_u")]
    #[serde(skip)]
    pub f0: u32,
    #[serde(default)]
    #[serde(skip)]
    pub f1: String,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W37_969 {
    #[serde(skip)]
    pub f0: u32,
    #[serde(skip)]
    pub f1: String,
}
#[derive(JsonSchema)]
pub struct W37_970 {
    #[serde(default = "dflt_u")]
    #[serde(skip_serializing)]
    pub f0: u32,
    #[serde(default)]
    #[serde(skip_serializing)]
    pub f1: String,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W37_971 {
    #[serde(skip_serializing)]
    pub f0: u32,
    #[serde(skip_serializing)]
    pub f1: String,
}
#[derive(JsonSchema)]
pub struct W37_972 {
    #[serde(default = "dflt_u")]
    #[serde(skip_deserializing)]
    pub f0: u32,
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub f1: String,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W37_973 {
    #[serde(skip_deserializing)]
    pub f0: u32,
    #[serde(skip_deserializing)]
    pub f1: String,
}
#[derive(JsonSchema)]
pub struct W37_974 {
    #[serde(default = "dflt_u")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub f0: u32,
    #[serde(default)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub f1: String,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W37_975 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub f0: u32,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub f1: String,
}
#[derive(JsonSchema)]
pub struct W37_976 {
    #[serde(default = "dflt_u")]
    #[serde(skip_serializing_if = "sif_u")]
    pub f0: u32,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif_u")]
    pub f1: u32,
    #[serde(skip_serializing_if = "sif_u")]
    pub f2: u32,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W37_977 {
    #[serde(default = "dflt_u")]
    #[serde(skip_serializing_if = "sif_u")]
    pub f0: u32,
    #[serde(skip_serializing_if = "sif_u")]
    pub f1: u32,
}
#[derive(JsonSchema)]
pub struct W37_978 {
    #[serde(default = "dflt_u")]
    #[serde(skip_serializing_if = "sif_u_true")]
    pub f0: u32,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif_u_true")]
    pub f1: u32,
    #[serde(skip_serializing_if = "sif_u_true")]
    pub f2: u32,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W37_979 {
    #[serde(default = "dflt_u")]
    #[serde(skip_serializing_if = "sif_u_true")]
    pub f0: u32,
    #[serde(skip_serializing_if = "sif_u_true")]
    pub f1: u32,
}
#[derive(JsonSchema)]
pub struct W37_980 {
    #[serde(default = "dflt_u")]
    #[serde(serialize_with = "ser_str")]
    pub f0: u32,
    #[serde(default)]
    #[serde(serialize_with = "ser_str")]
    pub f1: u32,
    #[serde(default)]
    #[serde(serialize_with = "ser_ns")]
    pub f2: NoSer,
}
#[derive(JsonSchema)]
pub struct W37_981 {
    /// d
    #[serde(default = "dflt_u")]
    pub f0: u32,
    #[serde(default)]
    #[schemars(extend("default" = 99))]
    pub f1: u32,
}
#[derive(JsonSchema)]
pub enum W37_982 {
    S {
        #[serde(default = "dflt_u")]
        f0: u32,
        #[serde(default)]
        f1: String,
        f2: bool,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W37_983 {
    S {
        #[serde(default = "dflt_u")]
        f0: u32,
        #[serde(default)]
        f1: String,
        f2: bool,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W37_984 {
    S {
        #[serde(default = "dflt_u")]
        f0: u32,
        #[serde(default)]
        f1: String,
        f2: bool,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W37_985 {
    S {
        #[serde(default = "dflt_u")]
        f0: u32,
        #[serde(default)]
        f1: String,
        f2: bool,
    },
}
#[derive(JsonSchema)]
pub struct W37_986 {
    /// fd
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub a: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W39_1 {
    #[schemars(length(min = 1, max = 10))]
    pub f0: String,
    #[schemars(length(min = 1, max = 10))]
    pub f1: u32,
    #[schemars(length(min = 1, max = 10))]
    pub f2: i32,
    #[schemars(length(min = 1, max = 10))]
    pub f3: f64,
    #[schemars(length(min = 1, max = 10))]
    pub f4: bool,
    #[schemars(length(min = 1, max = 10))]
    pub f5: Vec<String>,
    #[schemars(length(min = 1, max = 10))]
    pub f6: Vec<u32>,
    #[schemars(length(min = 1, max = 10))]
    pub f7: Option<String>,
    #[schemars(length(min = 1, max = 10))]
    pub f8: Option<u32>,
    #[schemars(length(min = 1, max = 10))]
    pub f9: Option<Vec<String>>,
    #[schemars(length(min = 1, max = 10))]
    pub f10: A,
    #[schemars(length(min = 1, max = 10))]
    pub f11: Refd,
    #[schemars(length(min = 1, max = 10))]
    pub f12: TT,
    #[schemars(length(min = 1, max = 10))]
    pub f13: MultiT,
    #[schemars(length(min = 1, max = 10))]
    pub f14: Constrained,
    #[schemars(length(min = 1, max = 10))]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(min = 1, max = 10))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_2 {
    #[schemars(length(min = 3))]
    pub f0: String,
    #[schemars(length(min = 3))]
    pub f1: u32,
    #[schemars(length(min = 3))]
    pub f2: i32,
    #[schemars(length(min = 3))]
    pub f3: f64,
    #[schemars(length(min = 3))]
    pub f4: bool,
    #[schemars(length(min = 3))]
    pub f5: Vec<String>,
    #[schemars(length(min = 3))]
    pub f6: Vec<u32>,
    #[schemars(length(min = 3))]
    pub f7: Option<String>,
    #[schemars(length(min = 3))]
    pub f8: Option<u32>,
    #[schemars(length(min = 3))]
    pub f9: Option<Vec<String>>,
    #[schemars(length(min = 3))]
    pub f10: A,
    #[schemars(length(min = 3))]
    pub f11: Refd,
    #[schemars(length(min = 3))]
    pub f12: TT,
    #[schemars(length(min = 3))]
    pub f13: MultiT,
    #[schemars(length(min = 3))]
    pub f14: Constrained,
    #[schemars(length(min = 3))]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(min = 3))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_3 {
    #[schemars(length(max = 7))]
    pub f0: String,
    #[schemars(length(max = 7))]
    pub f1: u32,
    #[schemars(length(max = 7))]
    pub f2: i32,
    #[schemars(length(max = 7))]
    pub f3: f64,
    #[schemars(length(max = 7))]
    pub f4: bool,
    #[schemars(length(max = 7))]
    pub f5: Vec<String>,
    #[schemars(length(max = 7))]
    pub f6: Vec<u32>,
    #[schemars(length(max = 7))]
    pub f7: Option<String>,
    #[schemars(length(max = 7))]
    pub f8: Option<u32>,
    #[schemars(length(max = 7))]
    pub f9: Option<Vec<String>>,
    #[schemars(length(max = 7))]
    pub f10: A,
    #[schemars(length(max = 7))]
    pub f11: Refd,
    #[schemars(length(max = 7))]
    pub f12: TT,
    #[schemars(length(max = 7))]
    pub f13: MultiT,
    #[schemars(length(max = 7))]
    pub f14: Constrained,
    #[schemars(length(max = 7))]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(max = 7))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_4 {
    #[schemars(length(equal = 5))]
    pub f0: String,
    #[schemars(length(equal = 5))]
    pub f1: u32,
    #[schemars(length(equal = 5))]
    pub f2: i32,
    #[schemars(length(equal = 5))]
    pub f3: f64,
    #[schemars(length(equal = 5))]
    pub f4: bool,
    #[schemars(length(equal = 5))]
    pub f5: Vec<String>,
    #[schemars(length(equal = 5))]
    pub f6: Vec<u32>,
    #[schemars(length(equal = 5))]
    pub f7: Option<String>,
    #[schemars(length(equal = 5))]
    pub f8: Option<u32>,
    #[schemars(length(equal = 5))]
    pub f9: Option<Vec<String>>,
    #[schemars(length(equal = 5))]
    pub f10: A,
    #[schemars(length(equal = 5))]
    pub f11: Refd,
    #[schemars(length(equal = 5))]
    pub f12: TT,
    #[schemars(length(equal = 5))]
    pub f13: MultiT,
    #[schemars(length(equal = 5))]
    pub f14: Constrained,
    #[schemars(length(equal = 5))]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(equal = 5))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_5 {
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f0: String,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f1: u32,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f2: i32,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f3: f64,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f4: bool,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f5: Vec<String>,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f6: Vec<u32>,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f7: Option<String>,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f8: Option<u32>,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f9: Option<Vec<String>>,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f10: A,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f11: Refd,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f12: TT,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f13: MultiT,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f14: Constrained,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(min = MIN_C, max = MAX_C))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_6 {
    #[schemars(range(min = -5, max = 100))]
    pub f0: String,
    #[schemars(range(min = -5, max = 100))]
    pub f1: u32,
    #[schemars(range(min = -5, max = 100))]
    pub f2: i32,
    #[schemars(range(min = -5, max = 100))]
    pub f3: f64,
    #[schemars(range(min = -5, max = 100))]
    pub f4: bool,
    #[schemars(range(min = -5, max = 100))]
    pub f5: Vec<String>,
    #[schemars(range(min = -5, max = 100))]
    pub f6: Vec<u32>,
    #[schemars(range(min = -5, max = 100))]
    pub f7: Option<String>,
    #[schemars(range(min = -5, max = 100))]
    pub f8: Option<u32>,
    #[schemars(range(min = -5, max = 100))]
    pub f9: Option<Vec<String>>,
    #[schemars(range(min = -5, max = 100))]
    pub f10: A,
    #[schemars(range(min = -5, max = 100))]
    pub f11: Refd,
    #[schemars(range(min = -5, max = 100))]
    pub f12: TT,
    #[schemars(range(min = -5, max = 100))]
    pub f13: MultiT,
    #[schemars(range(min = -5, max = 100))]
    pub f14: Constrained,
    #[schemars(range(min = -5, max = 100))]
    pub f15: Vec<Vec<String>>,
    #[schemars(range(min = -5, max = 100))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_7 {
    #[schemars(range(min = 2.5))]
    pub f0: String,
    #[schemars(range(min = 2.5))]
    pub f1: u32,
    #[schemars(range(min = 2.5))]
    pub f2: i32,
    #[schemars(range(min = 2.5))]
    pub f3: f64,
    #[schemars(range(min = 2.5))]
    pub f4: bool,
    #[schemars(range(min = 2.5))]
    pub f5: Vec<String>,
    #[schemars(range(min = 2.5))]
    pub f6: Vec<u32>,
    #[schemars(range(min = 2.5))]
    pub f7: Option<String>,
    #[schemars(range(min = 2.5))]
    pub f8: Option<u32>,
    #[schemars(range(min = 2.5))]
    pub f9: Option<Vec<String>>,
    #[schemars(range(min = 2.5))]
    pub f10: A,
    #[schemars(range(min = 2.5))]
    pub f11: Refd,
    #[schemars(range(min = 2.5))]
    pub f12: TT,
    #[schemars(range(min = 2.5))]
    pub f13: MultiT,
    #[schemars(range(min = 2.5))]
    pub f14: Constrained,
    #[schemars(range(min = 2.5))]
    pub f15: Vec<Vec<String>>,
    #[schemars(range(min = 2.5))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_8 {
    #[schemars(range(max = 0))]
    pub f0: String,
    #[schemars(range(max = 0))]
    pub f1: u32,
    #[schemars(range(max = 0))]
    pub f2: i32,
    #[schemars(range(max = 0))]
    pub f3: f64,
    #[schemars(range(max = 0))]
    pub f4: bool,
    #[schemars(range(max = 0))]
    pub f5: Vec<String>,
    #[schemars(range(max = 0))]
    pub f6: Vec<u32>,
    #[schemars(range(max = 0))]
    pub f7: Option<String>,
    #[schemars(range(max = 0))]
    pub f8: Option<u32>,
    #[schemars(range(max = 0))]
    pub f9: Option<Vec<String>>,
    #[schemars(range(max = 0))]
    pub f10: A,
    #[schemars(range(max = 0))]
    pub f11: Refd,
    #[schemars(range(max = 0))]
    pub f12: TT,
    #[schemars(range(max = 0))]
    pub f13: MultiT,
    #[schemars(range(max = 0))]
    pub f14: Constrained,
    #[schemars(range(max = 0))]
    pub f15: Vec<Vec<String>>,
    #[schemars(range(max = 0))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_9 {
    #[schemars(range(min = MIN_C))]
    pub f0: String,
    #[schemars(range(min = MIN_C))]
    pub f1: u32,
    #[schemars(range(min = MIN_C))]
    pub f2: i32,
    #[schemars(range(min = MIN_C))]
    pub f3: f64,
    #[schemars(range(min = MIN_C))]
    pub f4: bool,
    #[schemars(range(min = MIN_C))]
    pub f5: Vec<String>,
    #[schemars(range(min = MIN_C))]
    pub f6: Vec<u32>,
    #[schemars(range(min = MIN_C))]
    pub f7: Option<String>,
    #[schemars(range(min = MIN_C))]
    pub f8: Option<u32>,
    #[schemars(range(min = MIN_C))]
    pub f9: Option<Vec<String>>,
    #[schemars(range(min = MIN_C))]
    pub f10: A,
    #[schemars(range(min = MIN_C))]
    pub f11: Refd,
    #[schemars(range(min = MIN_C))]
    pub f12: TT,
    #[schemars(range(min = MIN_C))]
    pub f13: MultiT,
    #[schemars(range(min = MIN_C))]
    pub f14: Constrained,
    #[schemars(range(min = MIN_C))]
    pub f15: Vec<Vec<String>>,
    #[schemars(range(min = MIN_C))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_10 {
    #[schemars(length(min = 0, max = 0))]
    pub f0: String,
    #[schemars(length(min = 0, max = 0))]
    pub f1: u32,
    #[schemars(length(min = 0, max = 0))]
    pub f2: i32,
    #[schemars(length(min = 0, max = 0))]
    pub f3: f64,
    #[schemars(length(min = 0, max = 0))]
    pub f4: bool,
    #[schemars(length(min = 0, max = 0))]
    pub f5: Vec<String>,
    #[schemars(length(min = 0, max = 0))]
    pub f6: Vec<u32>,
    #[schemars(length(min = 0, max = 0))]
    pub f7: Option<String>,
    #[schemars(length(min = 0, max = 0))]
    pub f8: Option<u32>,
    #[schemars(length(min = 0, max = 0))]
    pub f9: Option<Vec<String>>,
    #[schemars(length(min = 0, max = 0))]
    pub f10: A,
    #[schemars(length(min = 0, max = 0))]
    pub f11: Refd,
    #[schemars(length(min = 0, max = 0))]
    pub f12: TT,
    #[schemars(length(min = 0, max = 0))]
    pub f13: MultiT,
    #[schemars(length(min = 0, max = 0))]
    pub f14: Constrained,
    #[schemars(length(min = 0, max = 0))]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(min = 0, max = 0))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_11 {
    #[schemars(email)]
    pub f0: String,
    #[schemars(email)]
    pub f1: u32,
    #[schemars(email)]
    pub f2: i32,
    #[schemars(email)]
    pub f3: f64,
    #[schemars(email)]
    pub f4: bool,
    #[schemars(email)]
    pub f5: Vec<String>,
    #[schemars(email)]
    pub f6: Vec<u32>,
    #[schemars(email)]
    pub f7: Option<String>,
    #[schemars(email)]
    pub f8: Option<u32>,
    #[schemars(email)]
    pub f9: Option<Vec<String>>,
    #[schemars(email)]
    pub f10: A,
    #[schemars(email)]
    pub f11: Refd,
    #[schemars(email)]
    pub f12: TT,
    #[schemars(email)]
    pub f13: MultiT,
    #[schemars(email)]
    pub f14: Constrained,
    #[schemars(email)]
    pub f15: Vec<Vec<String>>,
    #[schemars(email)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_12 {
    #[schemars(url)]
    pub f0: String,
    #[schemars(url)]
    pub f1: u32,
    #[schemars(url)]
    pub f2: i32,
    #[schemars(url)]
    pub f3: f64,
    #[schemars(url)]
    pub f4: bool,
    #[schemars(url)]
    pub f5: Vec<String>,
    #[schemars(url)]
    pub f6: Vec<u32>,
    #[schemars(url)]
    pub f7: Option<String>,
    #[schemars(url)]
    pub f8: Option<u32>,
    #[schemars(url)]
    pub f9: Option<Vec<String>>,
    #[schemars(url)]
    pub f10: A,
    #[schemars(url)]
    pub f11: Refd,
    #[schemars(url)]
    pub f12: TT,
    #[schemars(url)]
    pub f13: MultiT,
    #[schemars(url)]
    pub f14: Constrained,
    #[schemars(url)]
    pub f15: Vec<Vec<String>>,
    #[schemars(url)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_13 {
    #[schemars(ip)]
    pub f0: String,
    #[schemars(ip)]
    pub f1: u32,
    #[schemars(ip)]
    pub f2: i32,
    #[schemars(ip)]
    pub f3: f64,
    #[schemars(ip)]
    pub f4: bool,
    #[schemars(ip)]
    pub f5: Vec<String>,
    #[schemars(ip)]
    pub f6: Vec<u32>,
    #[schemars(ip)]
    pub f7: Option<String>,
    #[schemars(ip)]
    pub f8: Option<u32>,
    #[schemars(ip)]
    pub f9: Option<Vec<String>>,
    #[schemars(ip)]
    pub f10: A,
    #[schemars(ip)]
    pub f11: Refd,
    #[schemars(ip)]
    pub f12: TT,
    #[schemars(ip)]
    pub f13: MultiT,
    #[schemars(ip)]
    pub f14: Constrained,
    #[schemars(ip)]
    pub f15: Vec<Vec<String>>,
    #[schemars(ip)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_14 {
    #[schemars(ipv4)]
    pub f0: String,
    #[schemars(ipv4)]
    pub f1: u32,
    #[schemars(ipv4)]
    pub f2: i32,
    #[schemars(ipv4)]
    pub f3: f64,
    #[schemars(ipv4)]
    pub f4: bool,
    #[schemars(ipv4)]
    pub f5: Vec<String>,
    #[schemars(ipv4)]
    pub f6: Vec<u32>,
    #[schemars(ipv4)]
    pub f7: Option<String>,
    #[schemars(ipv4)]
    pub f8: Option<u32>,
    #[schemars(ipv4)]
    pub f9: Option<Vec<String>>,
    #[schemars(ipv4)]
    pub f10: A,
    #[schemars(ipv4)]
    pub f11: Refd,
    #[schemars(ipv4)]
    pub f12: TT,
    #[schemars(ipv4)]
    pub f13: MultiT,
    #[schemars(ipv4)]
    pub f14: Constrained,
    #[schemars(ipv4)]
    pub f15: Vec<Vec<String>>,
    #[schemars(ipv4)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_15 {
    #[schemars(ipv6)]
    pub f0: String,
    #[schemars(ipv6)]
    pub f1: u32,
    #[schemars(ipv6)]
    pub f2: i32,
    #[schemars(ipv6)]
    pub f3: f64,
    #[schemars(ipv6)]
    pub f4: bool,
    #[schemars(ipv6)]
    pub f5: Vec<String>,
    #[schemars(ipv6)]
    pub f6: Vec<u32>,
    #[schemars(ipv6)]
    pub f7: Option<String>,
    #[schemars(ipv6)]
    pub f8: Option<u32>,
    #[schemars(ipv6)]
    pub f9: Option<Vec<String>>,
    #[schemars(ipv6)]
    pub f10: A,
    #[schemars(ipv6)]
    pub f11: Refd,
    #[schemars(ipv6)]
    pub f12: TT,
    #[schemars(ipv6)]
    pub f13: MultiT,
    #[schemars(ipv6)]
    pub f14: Constrained,
    #[schemars(ipv6)]
    pub f15: Vec<Vec<String>>,
    #[schemars(ipv6)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_16 {
    #[schemars(required)]
    pub f7: Option<String>,
    #[schemars(required)]
    pub f8: Option<u32>,
    #[schemars(required)]
    pub f9: Option<Vec<String>>,
}
#[derive(JsonSchema)]
pub struct W39_17 {
    #[schemars(required)]
    #[schemars(length(min = 4))]
    #[schemars(range(max = 4))]
    pub f7: Option<String>,
    #[schemars(required)]
    #[schemars(length(min = 4))]
    #[schemars(range(max = 4))]
    pub f8: Option<u32>,
    #[schemars(required)]
    #[schemars(length(min = 4))]
    #[schemars(range(max = 4))]
    pub f9: Option<Vec<String>>,
}
#[derive(JsonSchema)]
pub struct W39_18 {
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f0: String,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f1: u32,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f2: i32,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f3: f64,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f4: bool,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f5: Vec<String>,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f6: Vec<u32>,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f7: Option<String>,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f8: Option<u32>,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f9: Option<Vec<String>>,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f10: A,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f11: Refd,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f12: TT,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f13: MultiT,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f14: Constrained,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 1, max = 9))]
    #[schemars(email)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_19 {
    #[validate(length(min = 1, max = 10))]
    pub f0: String,
    #[validate(length(min = 1, max = 10))]
    pub f1: u32,
    #[validate(length(min = 1, max = 10))]
    pub f2: i32,
    #[validate(length(min = 1, max = 10))]
    pub f3: f64,
    #[validate(length(min = 1, max = 10))]
    pub f4: bool,
    #[validate(length(min = 1, max = 10))]
    pub f5: Vec<String>,
    #[validate(length(min = 1, max = 10))]
    pub f6: Vec<u32>,
    #[validate(length(min = 1, max = 10))]
    pub f7: Option<String>,
    #[validate(length(min = 1, max = 10))]
    pub f8: Option<u32>,
    #[validate(length(min = 1, max = 10))]
    pub f9: Option<Vec<String>>,
    #[validate(length(min = 1, max = 10))]
    pub f10: A,
    #[validate(length(min = 1, max = 10))]
    pub f11: Refd,
    #[validate(length(min = 1, max = 10))]
    pub f12: TT,
    #[validate(length(min = 1, max = 10))]
    pub f13: MultiT,
    #[validate(length(min = 1, max = 10))]
    pub f14: Constrained,
    #[validate(length(min = 1, max = 10))]
    pub f15: Vec<Vec<String>>,
    #[validate(length(min = 1, max = 10))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_20 {
    #[validate(length(min = 3))]
    pub f0: String,
    #[validate(length(min = 3))]
    pub f1: u32,
    #[validate(length(min = 3))]
    pub f2: i32,
    #[validate(length(min = 3))]
    pub f3: f64,
    #[validate(length(min = 3))]
    pub f4: bool,
    #[validate(length(min = 3))]
    pub f5: Vec<String>,
    #[validate(length(min = 3))]
    pub f6: Vec<u32>,
    #[validate(length(min = 3))]
    pub f7: Option<String>,
    #[validate(length(min = 3))]
    pub f8: Option<u32>,
    #[validate(length(min = 3))]
    pub f9: Option<Vec<String>>,
    #[validate(length(min = 3))]
    pub f10: A,
    #[validate(length(min = 3))]
    pub f11: Refd,
    #[validate(length(min = 3))]
    pub f12: TT,
    #[validate(length(min = 3))]
    pub f13: MultiT,
    #[validate(length(min = 3))]
    pub f14: Constrained,
    #[validate(length(min = 3))]
    pub f15: Vec<Vec<String>>,
    #[validate(length(min = 3))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_21 {
    #[validate(length(max = 7))]
    pub f0: String,
    #[validate(length(max = 7))]
    pub f1: u32,
    #[validate(length(max = 7))]
    pub f2: i32,
    #[validate(length(max = 7))]
    pub f3: f64,
    #[validate(length(max = 7))]
    pub f4: bool,
    #[validate(length(max = 7))]
    pub f5: Vec<String>,
    #[validate(length(max = 7))]
    pub f6: Vec<u32>,
    #[validate(length(max = 7))]
    pub f7: Option<String>,
    #[validate(length(max = 7))]
    pub f8: Option<u32>,
    #[validate(length(max = 7))]
    pub f9: Option<Vec<String>>,
    #[validate(length(max = 7))]
    pub f10: A,
    #[validate(length(max = 7))]
    pub f11: Refd,
    #[validate(length(max = 7))]
    pub f12: TT,
    #[validate(length(max = 7))]
    pub f13: MultiT,
    #[validate(length(max = 7))]
    pub f14: Constrained,
    #[validate(length(max = 7))]
    pub f15: Vec<Vec<String>>,
    #[validate(length(max = 7))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_22 {
    #[validate(length(equal = 5))]
    pub f0: String,
    #[validate(length(equal = 5))]
    pub f1: u32,
    #[validate(length(equal = 5))]
    pub f2: i32,
    #[validate(length(equal = 5))]
    pub f3: f64,
    #[validate(length(equal = 5))]
    pub f4: bool,
    #[validate(length(equal = 5))]
    pub f5: Vec<String>,
    #[validate(length(equal = 5))]
    pub f6: Vec<u32>,
    #[validate(length(equal = 5))]
    pub f7: Option<String>,
    #[validate(length(equal = 5))]
    pub f8: Option<u32>,
    #[validate(length(equal = 5))]
    pub f9: Option<Vec<String>>,
    #[validate(length(equal = 5))]
    pub f10: A,
    #[validate(length(equal = 5))]
    pub f11: Refd,
    #[validate(length(equal = 5))]
    pub f12: TT,
    #[validate(length(equal = 5))]
    pub f13: MultiT,
    #[validate(length(equal = 5))]
    pub f14: Constrained,
    #[validate(length(equal = 5))]
    pub f15: Vec<Vec<String>>,
    #[validate(length(equal = 5))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_23 {
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f0: String,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f1: u32,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f2: i32,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f3: f64,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f4: bool,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f5: Vec<String>,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f6: Vec<u32>,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f7: Option<String>,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f8: Option<u32>,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f9: Option<Vec<String>>,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f10: A,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f11: Refd,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f12: TT,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f13: MultiT,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f14: Constrained,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f15: Vec<Vec<String>>,
    #[validate(length(min = MIN_C, max = MAX_C))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_24 {
    #[validate(range(min = -5, max = 100))]
    pub f0: String,
    #[validate(range(min = -5, max = 100))]
    pub f1: u32,
    #[validate(range(min = -5, max = 100))]
    pub f2: i32,
    #[validate(range(min = -5, max = 100))]
    pub f3: f64,
    #[validate(range(min = -5, max = 100))]
    pub f4: bool,
    #[validate(range(min = -5, max = 100))]
    pub f5: Vec<String>,
    #[validate(range(min = -5, max = 100))]
    pub f6: Vec<u32>,
    #[validate(range(min = -5, max = 100))]
    pub f7: Option<String>,
    #[validate(range(min = -5, max = 100))]
    pub f8: Option<u32>,
    #[validate(range(min = -5, max = 100))]
    pub f9: Option<Vec<String>>,
    #[validate(range(min = -5, max = 100))]
    pub f10: A,
    #[validate(range(min = -5, max = 100))]
    pub f11: Refd,
    #[validate(range(min = -5, max = 100))]
    pub f12: TT,
    #[validate(range(min = -5, max = 100))]
    pub f13: MultiT,
    #[validate(range(min = -5, max = 100))]
    pub f14: Constrained,
    #[validate(range(min = -5, max = 100))]
    pub f15: Vec<Vec<String>>,
    #[validate(range(min = -5, max = 100))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_25 {
    #[validate(range(min = 2.5))]
    pub f0: String,
    #[validate(range(min = 2.5))]
    pub f1: u32,
    #[validate(range(min = 2.5))]
    pub f2: i32,
    #[validate(range(min = 2.5))]
    pub f3: f64,
    #[validate(range(min = 2.5))]
    pub f4: bool,
    #[validate(range(min = 2.5))]
    pub f5: Vec<String>,
    #[validate(range(min = 2.5))]
    pub f6: Vec<u32>,
    #[validate(range(min = 2.5))]
    pub f7: Option<String>,
    #[validate(range(min = 2.5))]
    pub f8: Option<u32>,
    #[validate(range(min = 2.5))]
    pub f9: Option<Vec<String>>,
    #[validate(range(min = 2.5))]
    pub f10: A,
    #[validate(range(min = 2.5))]
    pub f11: Refd,
    #[validate(range(min = 2.5))]
    pub f12: TT,
    #[validate(range(min = 2.5))]
    pub f13: MultiT,
    #[validate(range(min = 2.5))]
    pub f14: Constrained,
    #[validate(range(min = 2.5))]
    pub f15: Vec<Vec<String>>,
    #[validate(range(min = 2.5))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_26 {
    #[validate(range(max = 0))]
    pub f0: String,
    #[validate(range(max = 0))]
    pub f1: u32,
    #[validate(range(max = 0))]
    pub f2: i32,
    #[validate(range(max = 0))]
    pub f3: f64,
    #[validate(range(max = 0))]
    pub f4: bool,
    #[validate(range(max = 0))]
    pub f5: Vec<String>,
    #[validate(range(max = 0))]
    pub f6: Vec<u32>,
    #[validate(range(max = 0))]
    pub f7: Option<String>,
    #[validate(range(max = 0))]
    pub f8: Option<u32>,
    #[validate(range(max = 0))]
    pub f9: Option<Vec<String>>,
    #[validate(range(max = 0))]
    pub f10: A,
    #[validate(range(max = 0))]
    pub f11: Refd,
    #[validate(range(max = 0))]
    pub f12: TT,
    #[validate(range(max = 0))]
    pub f13: MultiT,
    #[validate(range(max = 0))]
    pub f14: Constrained,
    #[validate(range(max = 0))]
    pub f15: Vec<Vec<String>>,
    #[validate(range(max = 0))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_27 {
    #[validate(range(min = MIN_C))]
    pub f0: String,
    #[validate(range(min = MIN_C))]
    pub f1: u32,
    #[validate(range(min = MIN_C))]
    pub f2: i32,
    #[validate(range(min = MIN_C))]
    pub f3: f64,
    #[validate(range(min = MIN_C))]
    pub f4: bool,
    #[validate(range(min = MIN_C))]
    pub f5: Vec<String>,
    #[validate(range(min = MIN_C))]
    pub f6: Vec<u32>,
    #[validate(range(min = MIN_C))]
    pub f7: Option<String>,
    #[validate(range(min = MIN_C))]
    pub f8: Option<u32>,
    #[validate(range(min = MIN_C))]
    pub f9: Option<Vec<String>>,
    #[validate(range(min = MIN_C))]
    pub f10: A,
    #[validate(range(min = MIN_C))]
    pub f11: Refd,
    #[validate(range(min = MIN_C))]
    pub f12: TT,
    #[validate(range(min = MIN_C))]
    pub f13: MultiT,
    #[validate(range(min = MIN_C))]
    pub f14: Constrained,
    #[validate(range(min = MIN_C))]
    pub f15: Vec<Vec<String>>,
    #[validate(range(min = MIN_C))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_28 {
    #[validate(length(min = 0, max = 0))]
    pub f0: String,
    #[validate(length(min = 0, max = 0))]
    pub f1: u32,
    #[validate(length(min = 0, max = 0))]
    pub f2: i32,
    #[validate(length(min = 0, max = 0))]
    pub f3: f64,
    #[validate(length(min = 0, max = 0))]
    pub f4: bool,
    #[validate(length(min = 0, max = 0))]
    pub f5: Vec<String>,
    #[validate(length(min = 0, max = 0))]
    pub f6: Vec<u32>,
    #[validate(length(min = 0, max = 0))]
    pub f7: Option<String>,
    #[validate(length(min = 0, max = 0))]
    pub f8: Option<u32>,
    #[validate(length(min = 0, max = 0))]
    pub f9: Option<Vec<String>>,
    #[validate(length(min = 0, max = 0))]
    pub f10: A,
    #[validate(length(min = 0, max = 0))]
    pub f11: Refd,
    #[validate(length(min = 0, max = 0))]
    pub f12: TT,
    #[validate(length(min = 0, max = 0))]
    pub f13: MultiT,
    #[validate(length(min = 0, max = 0))]
    pub f14: Constrained,
    #[validate(length(min = 0, max = 0))]
    pub f15: Vec<Vec<String>>,
    #[validate(length(min = 0, max = 0))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_29 {
    #[validate(email)]
    pub f0: String,
    #[validate(email)]
    pub f1: u32,
    #[validate(email)]
    pub f2: i32,
    #[validate(email)]
    pub f3: f64,
    #[validate(email)]
    pub f4: bool,
    #[validate(email)]
    pub f5: Vec<String>,
    #[validate(email)]
    pub f6: Vec<u32>,
    #[validate(email)]
    pub f7: Option<String>,
    #[validate(email)]
    pub f8: Option<u32>,
    #[validate(email)]
    pub f9: Option<Vec<String>>,
    #[validate(email)]
    pub f10: A,
    #[validate(email)]
    pub f11: Refd,
    #[validate(email)]
    pub f12: TT,
    #[validate(email)]
    pub f13: MultiT,
    #[validate(email)]
    pub f14: Constrained,
    #[validate(email)]
    pub f15: Vec<Vec<String>>,
    #[validate(email)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_30 {
    #[validate(url)]
    pub f0: String,
    #[validate(url)]
    pub f1: u32,
    #[validate(url)]
    pub f2: i32,
    #[validate(url)]
    pub f3: f64,
    #[validate(url)]
    pub f4: bool,
    #[validate(url)]
    pub f5: Vec<String>,
    #[validate(url)]
    pub f6: Vec<u32>,
    #[validate(url)]
    pub f7: Option<String>,
    #[validate(url)]
    pub f8: Option<u32>,
    #[validate(url)]
    pub f9: Option<Vec<String>>,
    #[validate(url)]
    pub f10: A,
    #[validate(url)]
    pub f11: Refd,
    #[validate(url)]
    pub f12: TT,
    #[validate(url)]
    pub f13: MultiT,
    #[validate(url)]
    pub f14: Constrained,
    #[validate(url)]
    pub f15: Vec<Vec<String>>,
    #[validate(url)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_31 {
    #[validate(ip)]
    pub f0: String,
    #[validate(ip)]
    pub f1: u32,
    #[validate(ip)]
    pub f2: i32,
    #[validate(ip)]
    pub f3: f64,
    #[validate(ip)]
    pub f4: bool,
    #[validate(ip)]
    pub f5: Vec<String>,
    #[validate(ip)]
    pub f6: Vec<u32>,
    #[validate(ip)]
    pub f7: Option<String>,
    #[validate(ip)]
    pub f8: Option<u32>,
    #[validate(ip)]
    pub f9: Option<Vec<String>>,
    #[validate(ip)]
    pub f10: A,
    #[validate(ip)]
    pub f11: Refd,
    #[validate(ip)]
    pub f12: TT,
    #[validate(ip)]
    pub f13: MultiT,
    #[validate(ip)]
    pub f14: Constrained,
    #[validate(ip)]
    pub f15: Vec<Vec<String>>,
    #[validate(ip)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_32 {
    #[validate(ipv4)]
    pub f0: String,
    #[validate(ipv4)]
    pub f1: u32,
    #[validate(ipv4)]
    pub f2: i32,
    #[validate(ipv4)]
    pub f3: f64,
    #[validate(ipv4)]
    pub f4: bool,
    #[validate(ipv4)]
    pub f5: Vec<String>,
    #[validate(ipv4)]
    pub f6: Vec<u32>,
    #[validate(ipv4)]
    pub f7: Option<String>,
    #[validate(ipv4)]
    pub f8: Option<u32>,
    #[validate(ipv4)]
    pub f9: Option<Vec<String>>,
    #[validate(ipv4)]
    pub f10: A,
    #[validate(ipv4)]
    pub f11: Refd,
    #[validate(ipv4)]
    pub f12: TT,
    #[validate(ipv4)]
    pub f13: MultiT,
    #[validate(ipv4)]
    pub f14: Constrained,
    #[validate(ipv4)]
    pub f15: Vec<Vec<String>>,
    #[validate(ipv4)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_33 {
    #[validate(ipv6)]
    pub f0: String,
    #[validate(ipv6)]
    pub f1: u32,
    #[validate(ipv6)]
    pub f2: i32,
    #[validate(ipv6)]
    pub f3: f64,
    #[validate(ipv6)]
    pub f4: bool,
    #[validate(ipv6)]
    pub f5: Vec<String>,
    #[validate(ipv6)]
    pub f6: Vec<u32>,
    #[validate(ipv6)]
    pub f7: Option<String>,
    #[validate(ipv6)]
    pub f8: Option<u32>,
    #[validate(ipv6)]
    pub f9: Option<Vec<String>>,
    #[validate(ipv6)]
    pub f10: A,
    #[validate(ipv6)]
    pub f11: Refd,
    #[validate(ipv6)]
    pub f12: TT,
    #[validate(ipv6)]
    pub f13: MultiT,
    #[validate(ipv6)]
    pub f14: Constrained,
    #[validate(ipv6)]
    pub f15: Vec<Vec<String>>,
    #[validate(ipv6)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_34 {
    #[validate(required)]
    pub f7: Option<String>,
    #[validate(required)]
    pub f8: Option<u32>,
    #[validate(required)]
    pub f9: Option<Vec<String>>,
}
#[derive(JsonSchema)]
pub struct W39_35 {
    #[validate(required)]
    #[validate(length(min = 4))]
    #[validate(range(max = 4))]
    pub f7: Option<String>,
    #[validate(required)]
    #[validate(length(min = 4))]
    #[validate(range(max = 4))]
    pub f8: Option<u32>,
    #[validate(required)]
    #[validate(length(min = 4))]
    #[validate(range(max = 4))]
    pub f9: Option<Vec<String>>,
}
#[derive(JsonSchema)]
pub struct W39_36 {
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f0: String,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f1: u32,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f2: i32,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f3: f64,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f4: bool,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f5: Vec<String>,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f6: Vec<u32>,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f7: Option<String>,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f8: Option<u32>,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f9: Option<Vec<String>>,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f10: A,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f11: Refd,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f12: TT,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f13: MultiT,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f14: Constrained,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f15: Vec<Vec<String>>,
    #[validate(length(min = 1))]
    #[validate(range(min = 1, max = 9))]
    #[validate(email)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_37 {
    #[garde(length(min = 1, max = 10))]
    pub f0: String,
    #[garde(length(min = 1, max = 10))]
    pub f1: u32,
    #[garde(length(min = 1, max = 10))]
    pub f2: i32,
    #[garde(length(min = 1, max = 10))]
    pub f3: f64,
    #[garde(length(min = 1, max = 10))]
    pub f4: bool,
    #[garde(length(min = 1, max = 10))]
    pub f5: Vec<String>,
    #[garde(length(min = 1, max = 10))]
    pub f6: Vec<u32>,
    #[garde(length(min = 1, max = 10))]
    pub f7: Option<String>,
    #[garde(length(min = 1, max = 10))]
    pub f8: Option<u32>,
    #[garde(length(min = 1, max = 10))]
    pub f9: Option<Vec<String>>,
    #[garde(length(min = 1, max = 10))]
    pub f10: A,
    #[garde(length(min = 1, max = 10))]
    pub f11: Refd,
    #[garde(length(min = 1, max = 10))]
    pub f12: TT,
    #[garde(length(min = 1, max = 10))]
    pub f13: MultiT,
    #[garde(length(min = 1, max = 10))]
    pub f14: Constrained,
    #[garde(length(min = 1, max = 10))]
    pub f15: Vec<Vec<String>>,
    #[garde(length(min = 1, max = 10))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_38 {
    #[garde(length(min = 3))]
    pub f0: String,
    #[garde(length(min = 3))]
    pub f1: u32,
    #[garde(length(min = 3))]
    pub f2: i32,
    #[garde(length(min = 3))]
    pub f3: f64,
    #[garde(length(min = 3))]
    pub f4: bool,
    #[garde(length(min = 3))]
    pub f5: Vec<String>,
    #[garde(length(min = 3))]
    pub f6: Vec<u32>,
    #[garde(length(min = 3))]
    pub f7: Option<String>,
    #[garde(length(min = 3))]
    pub f8: Option<u32>,
    #[garde(length(min = 3))]
    pub f9: Option<Vec<String>>,
    #[garde(length(min = 3))]
    pub f10: A,
    #[garde(length(min = 3))]
    pub f11: Refd,
    #[garde(length(min = 3))]
    pub f12: TT,
    #[garde(length(min = 3))]
    pub f13: MultiT,
    #[garde(length(min = 3))]
    pub f14: Constrained,
    #[garde(length(min = 3))]
    pub f15: Vec<Vec<String>>,
    #[garde(length(min = 3))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_39 {
    #[garde(length(max = 7))]
    pub f0: String,
    #[garde(length(max = 7))]
    pub f1: u32,
    #[garde(length(max = 7))]
    pub f2: i32,
    #[garde(length(max = 7))]
    pub f3: f64,
    #[garde(length(max = 7))]
    pub f4: bool,
    #[garde(length(max = 7))]
    pub f5: Vec<String>,
    #[garde(length(max = 7))]
    pub f6: Vec<u32>,
    #[garde(length(max = 7))]
    pub f7: Option<String>,
    #[garde(length(max = 7))]
    pub f8: Option<u32>,
    #[garde(length(max = 7))]
    pub f9: Option<Vec<String>>,
    #[garde(length(max = 7))]
    pub f10: A,
    #[garde(length(max = 7))]
    pub f11: Refd,
    #[garde(length(max = 7))]
    pub f12: TT,
    #[garde(length(max = 7))]
    pub f13: MultiT,
    #[garde(length(max = 7))]
    pub f14: Constrained,
    #[garde(length(max = 7))]
    pub f15: Vec<Vec<String>>,
    #[garde(length(max = 7))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_40 {
    #[garde(length(equal = 5))]
    pub f0: String,
    #[garde(length(equal = 5))]
    pub f1: u32,
    #[garde(length(equal = 5))]
    pub f2: i32,
    #[garde(length(equal = 5))]
    pub f3: f64,
    #[garde(length(equal = 5))]
    pub f4: bool,
    #[garde(length(equal = 5))]
    pub f5: Vec<String>,
    #[garde(length(equal = 5))]
    pub f6: Vec<u32>,
    #[garde(length(equal = 5))]
    pub f7: Option<String>,
    #[garde(length(equal = 5))]
    pub f8: Option<u32>,
    #[garde(length(equal = 5))]
    pub f9: Option<Vec<String>>,
    #[garde(length(equal = 5))]
    pub f10: A,
    #[garde(length(equal = 5))]
    pub f11: Refd,
    #[garde(length(equal = 5))]
    pub f12: TT,
    #[garde(length(equal = 5))]
    pub f13: MultiT,
    #[garde(length(equal = 5))]
    pub f14: Constrained,
    #[garde(length(equal = 5))]
    pub f15: Vec<Vec<String>>,
    #[garde(length(equal = 5))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_41 {
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f0: String,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f1: u32,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f2: i32,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f3: f64,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f4: bool,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f5: Vec<String>,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f6: Vec<u32>,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f7: Option<String>,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f8: Option<u32>,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f9: Option<Vec<String>>,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f10: A,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f11: Refd,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f12: TT,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f13: MultiT,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f14: Constrained,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f15: Vec<Vec<String>>,
    #[garde(length(min = MIN_C, max = MAX_C))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_42 {
    #[garde(range(min = -5, max = 100))]
    pub f0: String,
    #[garde(range(min = -5, max = 100))]
    pub f1: u32,
    #[garde(range(min = -5, max = 100))]
    pub f2: i32,
    #[garde(range(min = -5, max = 100))]
    pub f3: f64,
    #[garde(range(min = -5, max = 100))]
    pub f4: bool,
    #[garde(range(min = -5, max = 100))]
    pub f5: Vec<String>,
    #[garde(range(min = -5, max = 100))]
    pub f6: Vec<u32>,
    #[garde(range(min = -5, max = 100))]
    pub f7: Option<String>,
    #[garde(range(min = -5, max = 100))]
    pub f8: Option<u32>,
    #[garde(range(min = -5, max = 100))]
    pub f9: Option<Vec<String>>,
    #[garde(range(min = -5, max = 100))]
    pub f10: A,
    #[garde(range(min = -5, max = 100))]
    pub f11: Refd,
    #[garde(range(min = -5, max = 100))]
    pub f12: TT,
    #[garde(range(min = -5, max = 100))]
    pub f13: MultiT,
    #[garde(range(min = -5, max = 100))]
    pub f14: Constrained,
    #[garde(range(min = -5, max = 100))]
    pub f15: Vec<Vec<String>>,
    #[garde(range(min = -5, max = 100))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_43 {
    #[garde(range(min = 2.5))]
    pub f0: String,
    #[garde(range(min = 2.5))]
    pub f1: u32,
    #[garde(range(min = 2.5))]
    pub f2: i32,
    #[garde(range(min = 2.5))]
    pub f3: f64,
    #[garde(range(min = 2.5))]
    pub f4: bool,
    #[garde(range(min = 2.5))]
    pub f5: Vec<String>,
    #[garde(range(min = 2.5))]
    pub f6: Vec<u32>,
    #[garde(range(min = 2.5))]
    pub f7: Option<String>,
    #[garde(range(min = 2.5))]
    pub f8: Option<u32>,
    #[garde(range(min = 2.5))]
    pub f9: Option<Vec<String>>,
    #[garde(range(min = 2.5))]
    pub f10: A,
    #[garde(range(min = 2.5))]
    pub f11: Refd,
    #[garde(range(min = 2.5))]
    pub f12: TT,
    #[garde(range(min = 2.5))]
    pub f13: MultiT,
    #[garde(range(min = 2.5))]
    pub f14: Constrained,
    #[garde(range(min = 2.5))]
    pub f15: Vec<Vec<String>>,
    #[garde(range(min = 2.5))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_44 {
    #[garde(range(max = 0))]
    pub f0: String,
    #[garde(range(max = 0))]
    pub f1: u32,
    #[garde(range(max = 0))]
    pub f2: i32,
    #[garde(range(max = 0))]
    pub f3: f64,
    #[garde(range(max = 0))]
    pub f4: bool,
    #[garde(range(max = 0))]
    pub f5: Vec<String>,
    #[garde(range(max = 0))]
    pub f6: Vec<u32>,
    #[garde(range(max = 0))]
    pub f7: Option<String>,
    #[garde(range(max = 0))]
    pub f8: Option<u32>,
    #[garde(range(max = 0))]
    pub f9: Option<Vec<String>>,
    #[garde(range(max = 0))]
    pub f10: A,
    #[garde(range(max = 0))]
    pub f11: Refd,
    #[garde(range(max = 0))]
    pub f12: TT,
    #[garde(range(max = 0))]
    pub f13: MultiT,
    #[garde(range(max = 0))]
    pub f14: Constrained,
    #[garde(range(max = 0))]
    pub f15: Vec<Vec<String>>,
    #[garde(range(max = 0))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_45 {
    #[garde(range(min = MIN_C))]
    pub f0: String,
    #[garde(range(min = MIN_C))]
    pub f1: u32,
    #[garde(range(min = MIN_C))]
    pub f2: i32,
    #[garde(range(min = MIN_C))]
    pub f3: f64,
    #[garde(range(min = MIN_C))]
    pub f4: bool,
    #[garde(range(min = MIN_C))]
    pub f5: Vec<String>,
    #[garde(range(min = MIN_C))]
    pub f6: Vec<u32>,
    #[garde(range(min = MIN_C))]
    pub f7: Option<String>,
    #[garde(range(min = MIN_C))]
    pub f8: Option<u32>,
    #[garde(range(min = MIN_C))]
    pub f9: Option<Vec<String>>,
    #[garde(range(min = MIN_C))]
    pub f10: A,
    #[garde(range(min = MIN_C))]
    pub f11: Refd,
    #[garde(range(min = MIN_C))]
    pub f12: TT,
    #[garde(range(min = MIN_C))]
    pub f13: MultiT,
    #[garde(range(min = MIN_C))]
    pub f14: Constrained,
    #[garde(range(min = MIN_C))]
    pub f15: Vec<Vec<String>>,
    #[garde(range(min = MIN_C))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_46 {
    #[garde(length(min = 0, max = 0))]
    pub f0: String,
    #[garde(length(min = 0, max = 0))]
    pub f1: u32,
    #[garde(length(min = 0, max = 0))]
    pub f2: i32,
    #[garde(length(min = 0, max = 0))]
    pub f3: f64,
    #[garde(length(min = 0, max = 0))]
    pub f4: bool,
    #[garde(length(min = 0, max = 0))]
    pub f5: Vec<String>,
    #[garde(length(min = 0, max = 0))]
    pub f6: Vec<u32>,
    #[garde(length(min = 0, max = 0))]
    pub f7: Option<String>,
    #[garde(length(min = 0, max = 0))]
    pub f8: Option<u32>,
    #[garde(length(min = 0, max = 0))]
    pub f9: Option<Vec<String>>,
    #[garde(length(min = 0, max = 0))]
    pub f10: A,
    #[garde(length(min = 0, max = 0))]
    pub f11: Refd,
    #[garde(length(min = 0, max = 0))]
    pub f12: TT,
    #[garde(length(min = 0, max = 0))]
    pub f13: MultiT,
    #[garde(length(min = 0, max = 0))]
    pub f14: Constrained,
    #[garde(length(min = 0, max = 0))]
    pub f15: Vec<Vec<String>>,
    #[garde(length(min = 0, max = 0))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_47 {
    #[garde(email)]
    pub f0: String,
    #[garde(email)]
    pub f1: u32,
    #[garde(email)]
    pub f2: i32,
    #[garde(email)]
    pub f3: f64,
    #[garde(email)]
    pub f4: bool,
    #[garde(email)]
    pub f5: Vec<String>,
    #[garde(email)]
    pub f6: Vec<u32>,
    #[garde(email)]
    pub f7: Option<String>,
    #[garde(email)]
    pub f8: Option<u32>,
    #[garde(email)]
    pub f9: Option<Vec<String>>,
    #[garde(email)]
    pub f10: A,
    #[garde(email)]
    pub f11: Refd,
    #[garde(email)]
    pub f12: TT,
    #[garde(email)]
    pub f13: MultiT,
    #[garde(email)]
    pub f14: Constrained,
    #[garde(email)]
    pub f15: Vec<Vec<String>>,
    #[garde(email)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_48 {
    #[garde(url)]
    pub f0: String,
    #[garde(url)]
    pub f1: u32,
    #[garde(url)]
    pub f2: i32,
    #[garde(url)]
    pub f3: f64,
    #[garde(url)]
    pub f4: bool,
    #[garde(url)]
    pub f5: Vec<String>,
    #[garde(url)]
    pub f6: Vec<u32>,
    #[garde(url)]
    pub f7: Option<String>,
    #[garde(url)]
    pub f8: Option<u32>,
    #[garde(url)]
    pub f9: Option<Vec<String>>,
    #[garde(url)]
    pub f10: A,
    #[garde(url)]
    pub f11: Refd,
    #[garde(url)]
    pub f12: TT,
    #[garde(url)]
    pub f13: MultiT,
    #[garde(url)]
    pub f14: Constrained,
    #[garde(url)]
    pub f15: Vec<Vec<String>>,
    #[garde(url)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_49 {
    #[garde(ip)]
    pub f0: String,
    #[garde(ip)]
    pub f1: u32,
    #[garde(ip)]
    pub f2: i32,
    #[garde(ip)]
    pub f3: f64,
    #[garde(ip)]
    pub f4: bool,
    #[garde(ip)]
    pub f5: Vec<String>,
    #[garde(ip)]
    pub f6: Vec<u32>,
    #[garde(ip)]
    pub f7: Option<String>,
    #[garde(ip)]
    pub f8: Option<u32>,
    #[garde(ip)]
    pub f9: Option<Vec<String>>,
    #[garde(ip)]
    pub f10: A,
    #[garde(ip)]
    pub f11: Refd,
    #[garde(ip)]
    pub f12: TT,
    #[garde(ip)]
    pub f13: MultiT,
    #[garde(ip)]
    pub f14: Constrained,
    #[garde(ip)]
    pub f15: Vec<Vec<String>>,
    #[garde(ip)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_50 {
    #[garde(ipv4)]
    pub f0: String,
    #[garde(ipv4)]
    pub f1: u32,
    #[garde(ipv4)]
    pub f2: i32,
    #[garde(ipv4)]
    pub f3: f64,
    #[garde(ipv4)]
    pub f4: bool,
    #[garde(ipv4)]
    pub f5: Vec<String>,
    #[garde(ipv4)]
    pub f6: Vec<u32>,
    #[garde(ipv4)]
    pub f7: Option<String>,
    #[garde(ipv4)]
    pub f8: Option<u32>,
    #[garde(ipv4)]
    pub f9: Option<Vec<String>>,
    #[garde(ipv4)]
    pub f10: A,
    #[garde(ipv4)]
    pub f11: Refd,
    #[garde(ipv4)]
    pub f12: TT,
    #[garde(ipv4)]
    pub f13: MultiT,
    #[garde(ipv4)]
    pub f14: Constrained,
    #[garde(ipv4)]
    pub f15: Vec<Vec<String>>,
    #[garde(ipv4)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_51 {
    #[garde(ipv6)]
    pub f0: String,
    #[garde(ipv6)]
    pub f1: u32,
    #[garde(ipv6)]
    pub f2: i32,
    #[garde(ipv6)]
    pub f3: f64,
    #[garde(ipv6)]
    pub f4: bool,
    #[garde(ipv6)]
    pub f5: Vec<String>,
    #[garde(ipv6)]
    pub f6: Vec<u32>,
    #[garde(ipv6)]
    pub f7: Option<String>,
    #[garde(ipv6)]
    pub f8: Option<u32>,
    #[garde(ipv6)]
    pub f9: Option<Vec<String>>,
    #[garde(ipv6)]
    pub f10: A,
    #[garde(ipv6)]
    pub f11: Refd,
    #[garde(ipv6)]
    pub f12: TT,
    #[garde(ipv6)]
    pub f13: MultiT,
    #[garde(ipv6)]
    pub f14: Constrained,
    #[garde(ipv6)]
    pub f15: Vec<Vec<String>>,
    #[garde(ipv6)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_52 {
    #[garde(required)]
    pub f7: Option<String>,
    #[garde(required)]
    pub f8: Option<u32>,
    #[garde(required)]
    pub f9: Option<Vec<String>>,
}
#[derive(JsonSchema)]
pub struct W39_53 {
    #[garde(required)]
    #[garde(length(min = 4))]
    #[garde(range(max = 4))]
    pub f7: Option<String>,
    #[garde(required)]
    #[garde(length(min = 4))]
    #[garde(range(max = 4))]
    pub f8: Option<u32>,
    #[garde(required)]
    #[garde(length(min = 4))]
    #[garde(range(max = 4))]
    pub f9: Option<Vec<String>>,
}
#[derive(JsonSchema)]
pub struct W39_54 {
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f0: String,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f1: u32,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f2: i32,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f3: f64,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f4: bool,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f5: Vec<String>,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f6: Vec<u32>,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f7: Option<String>,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f8: Option<u32>,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f9: Option<Vec<String>>,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f10: A,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f11: Refd,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f12: TT,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f13: MultiT,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f14: Constrained,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f15: Vec<Vec<String>>,
    #[garde(length(min = 1))]
    #[garde(range(min = 1, max = 9))]
    #[garde(email)]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_55 {
    #[schemars(regex(pattern = "^a+$"))]
    pub f0: String,
    #[schemars(regex(pattern = RE_C))]
    pub f1: String,
    #[validate(regex(path = RE_C))]
    pub f2: String,
    #[garde(pattern("^g$"))]
    pub f3: String,
    #[schemars(contains(pattern = "a.b"))]
    pub f4: String,
    #[garde(contains("c+d"))]
    pub f5: String,
    #[validate(contains(pattern = "e*f"))]
    pub f6: String,
    #[schemars(pattern("^p"))]
    pub f7: String,
    #[schemars(contains("q?"))]
    pub f8: String,
}
#[derive(JsonSchema)]
pub struct W39_56 {
    #[schemars(regex(pattern = "^a+$"))]
    pub f0: u32,
    #[schemars(regex(pattern = RE_C))]
    pub f1: u32,
    #[validate(regex(path = RE_C))]
    pub f2: u32,
    #[garde(pattern("^g$"))]
    pub f3: u32,
    #[schemars(contains(pattern = "a.b"))]
    pub f4: u32,
    #[garde(contains("c+d"))]
    pub f5: u32,
    #[validate(contains(pattern = "e*f"))]
    pub f6: u32,
    #[schemars(pattern("^p"))]
    pub f7: u32,
    #[schemars(contains("q?"))]
    pub f8: u32,
}
#[derive(JsonSchema)]
pub struct W39_57 {
    #[schemars(regex(pattern = "^a+$"))]
    pub f0: Option<String>,
    #[schemars(regex(pattern = RE_C))]
    pub f1: Option<String>,
    #[validate(regex(path = RE_C))]
    pub f2: Option<String>,
    #[garde(pattern("^g$"))]
    pub f3: Option<String>,
    #[schemars(contains(pattern = "a.b"))]
    pub f4: Option<String>,
    #[garde(contains("c+d"))]
    pub f5: Option<String>,
    #[validate(contains(pattern = "e*f"))]
    pub f6: Option<String>,
    #[schemars(pattern("^p"))]
    pub f7: Option<String>,
    #[schemars(contains("q?"))]
    pub f8: Option<String>,
}
#[derive(JsonSchema)]
pub struct W39_58 {
    #[schemars(regex(pattern = "^a+$"))]
    pub f0: MultiT,
    #[schemars(regex(pattern = RE_C))]
    pub f1: MultiT,
    #[validate(regex(path = RE_C))]
    pub f2: MultiT,
    #[garde(pattern("^g$"))]
    pub f3: MultiT,
    #[schemars(contains(pattern = "a.b"))]
    pub f4: MultiT,
    #[garde(contains("c+d"))]
    pub f5: MultiT,
    #[validate(contains(pattern = "e*f"))]
    pub f6: MultiT,
    #[schemars(pattern("^p"))]
    pub f7: MultiT,
    #[schemars(contains("q?"))]
    pub f8: MultiT,
}
#[derive(JsonSchema)]
pub struct W39_59 {
    #[schemars(regex(pattern = "^a+$"))]
    pub f0: Constrained,
    #[schemars(regex(pattern = RE_C))]
    pub f1: Constrained,
    #[validate(regex(path = RE_C))]
    pub f2: Constrained,
    #[garde(pattern("^g$"))]
    pub f3: Constrained,
    #[schemars(contains(pattern = "a.b"))]
    pub f4: Constrained,
    #[garde(contains("c+d"))]
    pub f5: Constrained,
    #[validate(contains(pattern = "e*f"))]
    pub f6: Constrained,
    #[schemars(pattern("^p"))]
    pub f7: Constrained,
    #[schemars(contains("q?"))]
    pub f8: Constrained,
}
#[derive(JsonSchema)]
pub struct W39_60 {
    #[schemars(regex(pattern = "^a+$"))]
    pub f0: TT,
    #[schemars(regex(pattern = RE_C))]
    pub f1: TT,
    #[validate(regex(path = RE_C))]
    pub f2: TT,
    #[garde(pattern("^g$"))]
    pub f3: TT,
    #[schemars(contains(pattern = "a.b"))]
    pub f4: TT,
    #[garde(contains("c+d"))]
    pub f5: TT,
    #[validate(contains(pattern = "e*f"))]
    pub f6: TT,
    #[schemars(pattern("^p"))]
    pub f7: TT,
    #[schemars(contains("q?"))]
    pub f8: TT,
}
#[derive(JsonSchema)]
pub struct W39_61 {
    #[schemars(regex(pattern = "^a+$"))]
    pub f0: Vec<String>,
    #[schemars(regex(pattern = RE_C))]
    pub f1: Vec<String>,
    #[validate(regex(path = RE_C))]
    pub f2: Vec<String>,
    #[garde(pattern("^g$"))]
    pub f3: Vec<String>,
    #[schemars(contains(pattern = "a.b"))]
    pub f4: Vec<String>,
    #[garde(contains("c+d"))]
    pub f5: Vec<String>,
    #[validate(contains(pattern = "e*f"))]
    pub f6: Vec<String>,
    #[schemars(pattern("^p"))]
    pub f7: Vec<String>,
    #[schemars(contains("q?"))]
    pub f8: Vec<String>,
}
#[derive(JsonSchema)]
pub struct W39_62 {
    #[schemars(inner(length(min = 2)))]
    pub f0: String,
    #[schemars(inner(length(min = 2)))]
    pub f1: u32,
    #[schemars(inner(length(min = 2)))]
    pub f2: i32,
    #[schemars(inner(length(min = 2)))]
    pub f3: f64,
    #[schemars(inner(length(min = 2)))]
    pub f4: bool,
    #[schemars(inner(length(min = 2)))]
    pub f5: Vec<String>,
    #[schemars(inner(length(min = 2)))]
    pub f6: Vec<u32>,
    #[schemars(inner(length(min = 2)))]
    pub f7: Option<String>,
    #[schemars(inner(length(min = 2)))]
    pub f8: Option<u32>,
    #[schemars(inner(length(min = 2)))]
    pub f9: Option<Vec<String>>,
    #[schemars(inner(length(min = 2)))]
    pub f10: A,
    #[schemars(inner(length(min = 2)))]
    pub f11: Refd,
    #[schemars(inner(length(min = 2)))]
    pub f12: TT,
    #[schemars(inner(length(min = 2)))]
    pub f13: MultiT,
    #[schemars(inner(length(min = 2)))]
    pub f14: Constrained,
    #[schemars(inner(length(min = 2)))]
    pub f15: Vec<Vec<String>>,
    #[schemars(inner(length(min = 2)))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_63 {
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f0: String,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f1: u32,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f2: i32,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f3: f64,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f4: bool,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f5: Vec<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f6: Vec<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f7: Option<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f8: Option<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f9: Option<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f10: A,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f11: Refd,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f12: TT,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f13: MultiT,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f14: Constrained,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(min = 2)))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_64 {
    #[garde(inner(length(min = 2)))]
    pub f0: String,
    #[garde(inner(length(min = 2)))]
    pub f1: u32,
    #[garde(inner(length(min = 2)))]
    pub f2: i32,
    #[garde(inner(length(min = 2)))]
    pub f3: f64,
    #[garde(inner(length(min = 2)))]
    pub f4: bool,
    #[garde(inner(length(min = 2)))]
    pub f5: Vec<String>,
    #[garde(inner(length(min = 2)))]
    pub f6: Vec<u32>,
    #[garde(inner(length(min = 2)))]
    pub f7: Option<String>,
    #[garde(inner(length(min = 2)))]
    pub f8: Option<u32>,
    #[garde(inner(length(min = 2)))]
    pub f9: Option<Vec<String>>,
    #[garde(inner(length(min = 2)))]
    pub f10: A,
    #[garde(inner(length(min = 2)))]
    pub f11: Refd,
    #[garde(inner(length(min = 2)))]
    pub f12: TT,
    #[garde(inner(length(min = 2)))]
    pub f13: MultiT,
    #[garde(inner(length(min = 2)))]
    pub f14: Constrained,
    #[garde(inner(length(min = 2)))]
    pub f15: Vec<Vec<String>>,
    #[garde(inner(length(min = 2)))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_65 {
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f0: String,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f1: u32,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f2: i32,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f3: f64,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f4: bool,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f5: Vec<String>,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f6: Vec<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f7: Option<String>,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f8: Option<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f9: Option<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f10: A,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f11: Refd,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f12: TT,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f13: MultiT,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f14: Constrained,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f15: Vec<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(length(min = 2)))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_66 {
    #[schemars(inner(email))]
    pub f0: String,
    #[schemars(inner(email))]
    pub f1: u32,
    #[schemars(inner(email))]
    pub f2: i32,
    #[schemars(inner(email))]
    pub f3: f64,
    #[schemars(inner(email))]
    pub f4: bool,
    #[schemars(inner(email))]
    pub f5: Vec<String>,
    #[schemars(inner(email))]
    pub f6: Vec<u32>,
    #[schemars(inner(email))]
    pub f7: Option<String>,
    #[schemars(inner(email))]
    pub f8: Option<u32>,
    #[schemars(inner(email))]
    pub f9: Option<Vec<String>>,
    #[schemars(inner(email))]
    pub f10: A,
    #[schemars(inner(email))]
    pub f11: Refd,
    #[schemars(inner(email))]
    pub f12: TT,
    #[schemars(inner(email))]
    pub f13: MultiT,
    #[schemars(inner(email))]
    pub f14: Constrained,
    #[schemars(inner(email))]
    pub f15: Vec<Vec<String>>,
    #[schemars(inner(email))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_67 {
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f0: String,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f1: u32,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f2: i32,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f3: f64,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f4: bool,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f5: Vec<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f6: Vec<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f7: Option<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f8: Option<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f9: Option<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f10: A,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f11: Refd,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f12: TT,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f13: MultiT,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f14: Constrained,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(email))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_68 {
    #[garde(inner(email))]
    pub f0: String,
    #[garde(inner(email))]
    pub f1: u32,
    #[garde(inner(email))]
    pub f2: i32,
    #[garde(inner(email))]
    pub f3: f64,
    #[garde(inner(email))]
    pub f4: bool,
    #[garde(inner(email))]
    pub f5: Vec<String>,
    #[garde(inner(email))]
    pub f6: Vec<u32>,
    #[garde(inner(email))]
    pub f7: Option<String>,
    #[garde(inner(email))]
    pub f8: Option<u32>,
    #[garde(inner(email))]
    pub f9: Option<Vec<String>>,
    #[garde(inner(email))]
    pub f10: A,
    #[garde(inner(email))]
    pub f11: Refd,
    #[garde(inner(email))]
    pub f12: TT,
    #[garde(inner(email))]
    pub f13: MultiT,
    #[garde(inner(email))]
    pub f14: Constrained,
    #[garde(inner(email))]
    pub f15: Vec<Vec<String>>,
    #[garde(inner(email))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_69 {
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f0: String,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f1: u32,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f2: i32,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f3: f64,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f4: bool,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f5: Vec<String>,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f6: Vec<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f7: Option<String>,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f8: Option<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f9: Option<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f10: A,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f11: Refd,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f12: TT,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f13: MultiT,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f14: Constrained,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f15: Vec<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(email))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_70 {
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f0: String,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f1: u32,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f2: i32,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f3: f64,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f4: bool,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f5: Vec<String>,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f6: Vec<u32>,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f7: Option<String>,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f8: Option<u32>,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f9: Option<Vec<String>>,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f10: A,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f11: Refd,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f12: TT,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f13: MultiT,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f14: Constrained,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f15: Vec<Vec<String>>,
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_71 {
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f0: String,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f1: u32,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f2: i32,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f3: f64,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f4: bool,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f5: Vec<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f6: Vec<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f7: Option<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f8: Option<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f9: Option<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f10: A,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f11: Refd,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f12: TT,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f13: MultiT,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f14: Constrained,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(range(min = 1, max = 3)))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_72 {
    #[garde(inner(range(min = 1, max = 3)))]
    pub f0: String,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f1: u32,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f2: i32,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f3: f64,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f4: bool,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f5: Vec<String>,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f6: Vec<u32>,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f7: Option<String>,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f8: Option<u32>,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f9: Option<Vec<String>>,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f10: A,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f11: Refd,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f12: TT,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f13: MultiT,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f14: Constrained,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f15: Vec<Vec<String>>,
    #[garde(inner(range(min = 1, max = 3)))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_73 {
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f0: String,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f1: u32,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f2: i32,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f3: f64,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f4: bool,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f5: Vec<String>,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f6: Vec<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f7: Option<String>,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f8: Option<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f9: Option<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f10: A,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f11: Refd,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f12: TT,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f13: MultiT,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f14: Constrained,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f15: Vec<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(range(min = 1, max = 3)))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_74 {
    #[schemars(inner(pattern("^i$")))]
    pub f0: String,
    #[schemars(inner(pattern("^i$")))]
    pub f1: u32,
    #[schemars(inner(pattern("^i$")))]
    pub f2: i32,
    #[schemars(inner(pattern("^i$")))]
    pub f3: f64,
    #[schemars(inner(pattern("^i$")))]
    pub f4: bool,
    #[schemars(inner(pattern("^i$")))]
    pub f5: Vec<String>,
    #[schemars(inner(pattern("^i$")))]
    pub f6: Vec<u32>,
    #[schemars(inner(pattern("^i$")))]
    pub f7: Option<String>,
    #[schemars(inner(pattern("^i$")))]
    pub f8: Option<u32>,
    #[schemars(inner(pattern("^i$")))]
    pub f9: Option<Vec<String>>,
    #[schemars(inner(pattern("^i$")))]
    pub f10: A,
    #[schemars(inner(pattern("^i$")))]
    pub f11: Refd,
    #[schemars(inner(pattern("^i$")))]
    pub f12: TT,
    #[schemars(inner(pattern("^i$")))]
    pub f13: MultiT,
    #[schemars(inner(pattern("^i$")))]
    pub f14: Constrained,
    #[schemars(inner(pattern("^i$")))]
    pub f15: Vec<Vec<String>>,
    #[schemars(inner(pattern("^i$")))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_75 {
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f0: String,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f1: u32,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f2: i32,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f3: f64,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f4: bool,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f5: Vec<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f6: Vec<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f7: Option<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f8: Option<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f9: Option<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f10: A,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f11: Refd,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f12: TT,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f13: MultiT,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f14: Constrained,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(pattern("^i$")))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_76 {
    #[garde(inner(pattern("^i$")))]
    pub f0: String,
    #[garde(inner(pattern("^i$")))]
    pub f1: u32,
    #[garde(inner(pattern("^i$")))]
    pub f2: i32,
    #[garde(inner(pattern("^i$")))]
    pub f3: f64,
    #[garde(inner(pattern("^i$")))]
    pub f4: bool,
    #[garde(inner(pattern("^i$")))]
    pub f5: Vec<String>,
    #[garde(inner(pattern("^i$")))]
    pub f6: Vec<u32>,
    #[garde(inner(pattern("^i$")))]
    pub f7: Option<String>,
    #[garde(inner(pattern("^i$")))]
    pub f8: Option<u32>,
    #[garde(inner(pattern("^i$")))]
    pub f9: Option<Vec<String>>,
    #[garde(inner(pattern("^i$")))]
    pub f10: A,
    #[garde(inner(pattern("^i$")))]
    pub f11: Refd,
    #[garde(inner(pattern("^i$")))]
    pub f12: TT,
    #[garde(inner(pattern("^i$")))]
    pub f13: MultiT,
    #[garde(inner(pattern("^i$")))]
    pub f14: Constrained,
    #[garde(inner(pattern("^i$")))]
    pub f15: Vec<Vec<String>>,
    #[garde(inner(pattern("^i$")))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_77 {
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f0: String,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f1: u32,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f2: i32,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f3: f64,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f4: bool,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f5: Vec<String>,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f6: Vec<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f7: Option<String>,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f8: Option<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f9: Option<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f10: A,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f11: Refd,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f12: TT,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f13: MultiT,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f14: Constrained,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f15: Vec<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(pattern("^i$")))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_78 {
    #[schemars(inner(contains("z.")))]
    pub f0: String,
    #[schemars(inner(contains("z.")))]
    pub f1: u32,
    #[schemars(inner(contains("z.")))]
    pub f2: i32,
    #[schemars(inner(contains("z.")))]
    pub f3: f64,
    #[schemars(inner(contains("z.")))]
    pub f4: bool,
    #[schemars(inner(contains("z.")))]
    pub f5: Vec<String>,
    #[schemars(inner(contains("z.")))]
    pub f6: Vec<u32>,
    #[schemars(inner(contains("z.")))]
    pub f7: Option<String>,
    #[schemars(inner(contains("z.")))]
    pub f8: Option<u32>,
    #[schemars(inner(contains("z.")))]
    pub f9: Option<Vec<String>>,
    #[schemars(inner(contains("z.")))]
    pub f10: A,
    #[schemars(inner(contains("z.")))]
    pub f11: Refd,
    #[schemars(inner(contains("z.")))]
    pub f12: TT,
    #[schemars(inner(contains("z.")))]
    pub f13: MultiT,
    #[schemars(inner(contains("z.")))]
    pub f14: Constrained,
    #[schemars(inner(contains("z.")))]
    pub f15: Vec<Vec<String>>,
    #[schemars(inner(contains("z.")))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_79 {
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f0: String,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f1: u32,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f2: i32,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f3: f64,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f4: bool,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f5: Vec<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f6: Vec<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f7: Option<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f8: Option<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f9: Option<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f10: A,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f11: Refd,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f12: TT,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f13: MultiT,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f14: Constrained,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(contains("z.")))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_80 {
    #[garde(inner(contains("z.")))]
    pub f0: String,
    #[garde(inner(contains("z.")))]
    pub f1: u32,
    #[garde(inner(contains("z.")))]
    pub f2: i32,
    #[garde(inner(contains("z.")))]
    pub f3: f64,
    #[garde(inner(contains("z.")))]
    pub f4: bool,
    #[garde(inner(contains("z.")))]
    pub f5: Vec<String>,
    #[garde(inner(contains("z.")))]
    pub f6: Vec<u32>,
    #[garde(inner(contains("z.")))]
    pub f7: Option<String>,
    #[garde(inner(contains("z.")))]
    pub f8: Option<u32>,
    #[garde(inner(contains("z.")))]
    pub f9: Option<Vec<String>>,
    #[garde(inner(contains("z.")))]
    pub f10: A,
    #[garde(inner(contains("z.")))]
    pub f11: Refd,
    #[garde(inner(contains("z.")))]
    pub f12: TT,
    #[garde(inner(contains("z.")))]
    pub f13: MultiT,
    #[garde(inner(contains("z.")))]
    pub f14: Constrained,
    #[garde(inner(contains("z.")))]
    pub f15: Vec<Vec<String>>,
    #[garde(inner(contains("z.")))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_81 {
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f0: String,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f1: u32,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f2: i32,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f3: f64,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f4: bool,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f5: Vec<String>,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f6: Vec<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f7: Option<String>,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f8: Option<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f9: Option<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f10: A,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f11: Refd,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f12: TT,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f13: MultiT,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f14: Constrained,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f15: Vec<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(contains("z.")))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_82 {
    #[schemars(inner(inner(length(max = 4))))]
    pub f0: String,
    #[schemars(inner(inner(length(max = 4))))]
    pub f1: u32,
    #[schemars(inner(inner(length(max = 4))))]
    pub f2: i32,
    #[schemars(inner(inner(length(max = 4))))]
    pub f3: f64,
    #[schemars(inner(inner(length(max = 4))))]
    pub f4: bool,
    #[schemars(inner(inner(length(max = 4))))]
    pub f5: Vec<String>,
    #[schemars(inner(inner(length(max = 4))))]
    pub f6: Vec<u32>,
    #[schemars(inner(inner(length(max = 4))))]
    pub f7: Option<String>,
    #[schemars(inner(inner(length(max = 4))))]
    pub f8: Option<u32>,
    #[schemars(inner(inner(length(max = 4))))]
    pub f9: Option<Vec<String>>,
    #[schemars(inner(inner(length(max = 4))))]
    pub f10: A,
    #[schemars(inner(inner(length(max = 4))))]
    pub f11: Refd,
    #[schemars(inner(inner(length(max = 4))))]
    pub f12: TT,
    #[schemars(inner(inner(length(max = 4))))]
    pub f13: MultiT,
    #[schemars(inner(inner(length(max = 4))))]
    pub f14: Constrained,
    #[schemars(inner(inner(length(max = 4))))]
    pub f15: Vec<Vec<String>>,
    #[schemars(inner(inner(length(max = 4))))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_83 {
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f0: String,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f1: u32,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f2: i32,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f3: f64,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f4: bool,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f5: Vec<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f6: Vec<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f7: Option<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f8: Option<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f9: Option<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f10: A,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f11: Refd,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f12: TT,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f13: MultiT,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f14: Constrained,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(inner(length(max = 4))))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_84 {
    #[garde(inner(inner(length(max = 4))))]
    pub f0: String,
    #[garde(inner(inner(length(max = 4))))]
    pub f1: u32,
    #[garde(inner(inner(length(max = 4))))]
    pub f2: i32,
    #[garde(inner(inner(length(max = 4))))]
    pub f3: f64,
    #[garde(inner(inner(length(max = 4))))]
    pub f4: bool,
    #[garde(inner(inner(length(max = 4))))]
    pub f5: Vec<String>,
    #[garde(inner(inner(length(max = 4))))]
    pub f6: Vec<u32>,
    #[garde(inner(inner(length(max = 4))))]
    pub f7: Option<String>,
    #[garde(inner(inner(length(max = 4))))]
    pub f8: Option<u32>,
    #[garde(inner(inner(length(max = 4))))]
    pub f9: Option<Vec<String>>,
    #[garde(inner(inner(length(max = 4))))]
    pub f10: A,
    #[garde(inner(inner(length(max = 4))))]
    pub f11: Refd,
    #[garde(inner(inner(length(max = 4))))]
    pub f12: TT,
    #[garde(inner(inner(length(max = 4))))]
    pub f13: MultiT,
    #[garde(inner(inner(length(max = 4))))]
    pub f14: Constrained,
    #[garde(inner(inner(length(max = 4))))]
    pub f15: Vec<Vec<String>>,
    #[garde(inner(inner(length(max = 4))))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_85 {
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f0: String,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f1: u32,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f2: i32,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f3: f64,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f4: bool,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f5: Vec<String>,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f6: Vec<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f7: Option<String>,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f8: Option<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f9: Option<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f10: A,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f11: Refd,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f12: TT,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f13: MultiT,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f14: Constrained,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f15: Vec<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(inner(length(max = 4))))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_86 {
    #[schemars(inner(length(equal = 2), url))]
    pub f0: String,
    #[schemars(inner(length(equal = 2), url))]
    pub f1: u32,
    #[schemars(inner(length(equal = 2), url))]
    pub f2: i32,
    #[schemars(inner(length(equal = 2), url))]
    pub f3: f64,
    #[schemars(inner(length(equal = 2), url))]
    pub f4: bool,
    #[schemars(inner(length(equal = 2), url))]
    pub f5: Vec<String>,
    #[schemars(inner(length(equal = 2), url))]
    pub f6: Vec<u32>,
    #[schemars(inner(length(equal = 2), url))]
    pub f7: Option<String>,
    #[schemars(inner(length(equal = 2), url))]
    pub f8: Option<u32>,
    #[schemars(inner(length(equal = 2), url))]
    pub f9: Option<Vec<String>>,
    #[schemars(inner(length(equal = 2), url))]
    pub f10: A,
    #[schemars(inner(length(equal = 2), url))]
    pub f11: Refd,
    #[schemars(inner(length(equal = 2), url))]
    pub f12: TT,
    #[schemars(inner(length(equal = 2), url))]
    pub f13: MultiT,
    #[schemars(inner(length(equal = 2), url))]
    pub f14: Constrained,
    #[schemars(inner(length(equal = 2), url))]
    pub f15: Vec<Vec<String>>,
    #[schemars(inner(length(equal = 2), url))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_87 {
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f0: String,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f1: u32,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f2: i32,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f3: f64,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f4: bool,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f5: Vec<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f6: Vec<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f7: Option<String>,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f8: Option<u32>,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f9: Option<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f10: A,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f11: Refd,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f12: TT,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f13: MultiT,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f14: Constrained,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f15: Vec<Vec<String>>,
    #[schemars(length(max = 9))]
    #[schemars(inner(length(equal = 2), url))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_88 {
    #[garde(inner(length(equal = 2), url))]
    pub f0: String,
    #[garde(inner(length(equal = 2), url))]
    pub f1: u32,
    #[garde(inner(length(equal = 2), url))]
    pub f2: i32,
    #[garde(inner(length(equal = 2), url))]
    pub f3: f64,
    #[garde(inner(length(equal = 2), url))]
    pub f4: bool,
    #[garde(inner(length(equal = 2), url))]
    pub f5: Vec<String>,
    #[garde(inner(length(equal = 2), url))]
    pub f6: Vec<u32>,
    #[garde(inner(length(equal = 2), url))]
    pub f7: Option<String>,
    #[garde(inner(length(equal = 2), url))]
    pub f8: Option<u32>,
    #[garde(inner(length(equal = 2), url))]
    pub f9: Option<Vec<String>>,
    #[garde(inner(length(equal = 2), url))]
    pub f10: A,
    #[garde(inner(length(equal = 2), url))]
    pub f11: Refd,
    #[garde(inner(length(equal = 2), url))]
    pub f12: TT,
    #[garde(inner(length(equal = 2), url))]
    pub f13: MultiT,
    #[garde(inner(length(equal = 2), url))]
    pub f14: Constrained,
    #[garde(inner(length(equal = 2), url))]
    pub f15: Vec<Vec<String>>,
    #[garde(inner(length(equal = 2), url))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub struct W39_89 {
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f0: String,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f1: u32,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f2: i32,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f3: f64,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f4: bool,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f5: Vec<String>,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f6: Vec<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f7: Option<String>,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f8: Option<u32>,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f9: Option<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f10: A,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f11: Refd,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f12: TT,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f13: MultiT,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f14: Constrained,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f15: Vec<Vec<String>>,
    #[garde(length(max = 9))]
    #[garde(inner(length(equal = 2), url))]
    pub f16: TupS,
}
#[derive(JsonSchema)]
pub enum W39_90 {
    N(
        #[schemars(length(min = 1))]
        String,
    ),
    S {
        #[schemars(length(max = 6))]
        a: String,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W39_91 {
    N(
        #[schemars(length(min = 1))]
        Refd,
    ),
    S {
        #[schemars(length(max = 6))]
        a: String,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W39_92 {
    N(
        #[schemars(length(min = 1))]
        String,
    ),
    S {
        #[schemars(length(max = 6))]
        a: String,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W39_93 {
    N(
        #[schemars(length(min = 1))]
        String,
    ),
    S {
        #[schemars(length(max = 6))]
        a: String,
    },
}
#[derive(JsonSchema)]
pub struct W39_94(
    #[schemars(length(min = 1))]
    pub String,
    #[schemars(range(max = 5))]
    pub u32,
);
#[derive(JsonSchema)]
pub struct W39_95(
    #[schemars(length(min = 1))]
    pub String,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W39_96(
    #[schemars(email)]
    pub String,
);
#[derive(JsonSchema)]
pub struct W39_97 {
    #[schemars(length(min = 1))]
    #[validate(length(min = 2, max = 3))]
    pub a: String,
    #[validate(length(min = 2))]
    #[garde(length(min = 7))]
    pub b: String,
    #[schemars(with = "String")]
    #[schemars(length(min = 1))]
    pub c: u32,
}
#[derive(JsonSchema)]
pub struct W48_1 {
    #[schemars(with = "B")]
    pub a: A,
    #[serde(with = "B")]
    pub b: A,
    pub c: A,
}
#[derive(JsonSchema)]
pub struct W48_2(
    #[schemars(with = "B")]
    pub A,
    pub A,
);
#[derive(JsonSchema)]
pub struct W48_3(
    #[schemars(with = "B")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_4(
    #[schemars(with = "B")]
    pub NoSchema,
);
#[derive(JsonSchema)]
pub enum W48_5 {
    #[schemars(with = "B")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "B")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_6 {
    #[schemars(with = "B")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "B")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_7 {
    #[schemars(with = "B")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "B")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_8 {
    #[schemars(with = "B")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "B")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
pub struct W48_9 {
    #[schemars(with = "Option<A>")]
    pub a: A,
    pub b: A,
    pub c: A,
}
#[derive(JsonSchema)]
pub struct W48_10(
    #[schemars(with = "Option<A>")]
    pub A,
    pub A,
);
#[derive(JsonSchema)]
pub struct W48_11(
    #[schemars(with = "Option<A>")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_12(
    #[schemars(with = "Option<A>")]
    pub NoSchema,
);
#[derive(JsonSchema)]
pub enum W48_13 {
    #[schemars(with = "Option<A>")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "Option<A>")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_14 {
    #[schemars(with = "Option<A>")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "Option<A>")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_15 {
    #[schemars(with = "Option<A>")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "Option<A>")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_16 {
    #[schemars(with = "Option<A>")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "Option<A>")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
pub struct W48_17 {
    #[schemars(with = "Refd")]
    pub a: A,
    #[serde(with = "Refd")]
    pub b: A,
    pub c: A,
}
#[derive(JsonSchema)]
pub struct W48_18(
    #[schemars(with = "Refd")]
    pub A,
    pub A,
);
#[derive(JsonSchema)]
pub struct W48_19(
    #[schemars(with = "Refd")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_20(
    #[schemars(with = "Refd")]
    pub NoSchema,
);
#[derive(JsonSchema)]
pub enum W48_21 {
    #[schemars(with = "Refd")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "Refd")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_22 {
    #[schemars(with = "Refd")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "Refd")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_23 {
    #[schemars(with = "Refd")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "Refd")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_24 {
    #[schemars(with = "Refd")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "Refd")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
pub struct W48_25 {
    #[schemars(with = "String")]
    pub a: A,
    #[serde(with = "String")]
    pub b: A,
    pub c: A,
}
#[derive(JsonSchema)]
pub struct W48_26(
    #[schemars(with = "String")]
    pub A,
    pub A,
);
#[derive(JsonSchema)]
pub struct W48_27(
    #[schemars(with = "String")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_28(
    #[schemars(with = "String")]
    pub NoSchema,
);
#[derive(JsonSchema)]
pub enum W48_29 {
    #[schemars(with = "String")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "String")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "String")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_30 {
    #[schemars(with = "String")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "String")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "String")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_31 {
    #[schemars(with = "String")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "String")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "String")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_32 {
    #[schemars(with = "String")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(with = "String")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "String")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
pub struct W48_33 {
    #[schemars(schema_with = "sw1")]
    pub a: NoSchema,
    #[schemars(schema_with = "sup::sw2")]
    pub b: A,
    /// d
    #[schemars(schema_with = "sw_true")]
    pub c: A,
}
#[derive(JsonSchema)]
pub enum W48_34 {
    #[schemars(schema_with = "sw1")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(schema_with = "sup::sw2")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_35 {
    #[schemars(schema_with = "sw1")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(schema_with = "sup::sw2")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_36 {
    #[schemars(schema_with = "sw1")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(schema_with = "sup::sw2")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_37 {
    #[schemars(schema_with = "sw1")]
    Va(
        NoSchema,
    ),
    Vb(
        #[schemars(schema_with = "sup::sw2")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        a: NoSchema,
    },
}
#[derive(JsonSchema)]
#[serde(from = "B")]
pub struct W48_38 {
    pub a: A,
}
#[derive(JsonSchema)]
#[serde(from = "B")]
pub struct W48_39(
    pub A,
);
#[derive(JsonSchema)]
/// docs
#[serde(from = "B")]
pub struct W48_40(
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[serde(from = "B")]
pub enum W48_41 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[serde(from = "B")]
#[serde(tag = "tg")]
#[schemars(title = "TT")]
pub enum W48_42 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(from = "B")]
pub struct W48_43;
#[derive(JsonSchema)]
#[serde(try_from = "B")]
pub struct W48_44 {
    pub a: A,
}
#[derive(JsonSchema)]
#[serde(try_from = "B")]
pub struct W48_45(
    pub A,
);
#[derive(JsonSchema)]
/// docs
#[serde(try_from = "B")]
pub struct W48_46(
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[serde(try_from = "B")]
pub enum W48_47 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[serde(try_from = "B")]
#[serde(tag = "tg")]
#[schemars(title = "TT")]
pub enum W48_48 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(try_from = "B")]
pub struct W48_49;
#[derive(JsonSchema)]
#[serde(into = "C")]
pub struct W48_50 {
    pub a: A,
}
#[derive(JsonSchema)]
#[serde(into = "C")]
pub struct W48_51(
    pub A,
);
#[derive(JsonSchema)]
/// docs
#[serde(into = "C")]
pub struct W48_52(
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[serde(into = "C")]
pub enum W48_53 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[serde(into = "C")]
#[serde(tag = "tg")]
#[schemars(title = "TT")]
pub enum W48_54 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(into = "C")]
pub struct W48_55;
#[derive(JsonSchema)]
#[serde(from = "B")]
#[serde(into = "C")]
pub struct W48_56 {
    pub a: A,
}
#[derive(JsonSchema)]
#[serde(from = "B")]
#[serde(into = "C")]
pub struct W48_57(
    pub A,
);
#[derive(JsonSchema)]
/// docs
#[serde(from = "B")]
#[serde(into = "C")]
pub struct W48_58(
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[serde(from = "B")]
#[serde(into = "C")]
pub enum W48_59 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[serde(from = "B")]
#[serde(into = "C")]
#[serde(tag = "tg")]
#[schemars(title = "TT")]
pub enum W48_60 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(from = "B")]
#[serde(into = "C")]
pub struct W48_61;
#[derive(JsonSchema)]
#[serde(try_from = "B")]
#[serde(into = "C")]
pub struct W48_62 {
    pub a: A,
}
#[derive(JsonSchema)]
#[serde(try_from = "B")]
#[serde(into = "C")]
pub struct W48_63(
    pub A,
);
#[derive(JsonSchema)]
/// docs
#[serde(try_from = "B")]
#[serde(into = "C")]
pub struct W48_64(
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[serde(try_from = "B")]
#[serde(into = "C")]
pub enum W48_65 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[serde(try_from = "B")]
#[serde(into = "C")]
#[serde(tag = "tg")]
#[schemars(title = "TT")]
pub enum W48_66 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(try_from = "B")]
#[serde(into = "C")]
pub struct W48_67;
#[derive(JsonSchema)]
#[serde(from = "B")]
#[schemars(!from)]
pub struct W48_68 {
    pub a: A,
}
#[derive(JsonSchema)]
#[serde(from = "B")]
#[schemars(!from)]
pub struct W48_69(
    pub A,
);
#[derive(JsonSchema)]
/// docs
#[serde(from = "B")]
#[schemars(!from)]
pub struct W48_70(
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[serde(from = "B")]
#[schemars(!from)]
pub enum W48_71 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[serde(from = "B")]
#[schemars(!from)]
#[serde(tag = "tg")]
#[schemars(title = "TT")]
pub enum W48_72 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(from = "B")]
#[schemars(!from)]
pub struct W48_73;
#[derive(JsonSchema)]
#[serde(from = "B")]
#[schemars(from = "C")]
pub struct W48_74 {
    pub a: A,
}
#[derive(JsonSchema)]
#[serde(from = "B")]
#[schemars(from = "C")]
pub struct W48_75(
    pub A,
);
#[derive(JsonSchema)]
/// docs
#[serde(from = "B")]
#[schemars(from = "C")]
pub struct W48_76(
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[serde(from = "B")]
#[schemars(from = "C")]
pub enum W48_77 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[serde(from = "B")]
#[schemars(from = "C")]
#[serde(tag = "tg")]
#[schemars(title = "TT")]
pub enum W48_78 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(from = "B")]
#[schemars(from = "C")]
pub struct W48_79;
#[derive(JsonSchema)]
#[serde(into = "C")]
#[schemars(!into)]
pub struct W48_80 {
    pub a: A,
}
#[derive(JsonSchema)]
#[serde(into = "C")]
#[schemars(!into)]
pub struct W48_81(
    pub A,
);
#[derive(JsonSchema)]
/// docs
#[serde(into = "C")]
#[schemars(!into)]
pub struct W48_82(
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[serde(into = "C")]
#[schemars(!into)]
pub enum W48_83 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[serde(into = "C")]
#[schemars(!into)]
#[serde(tag = "tg")]
#[schemars(title = "TT")]
pub enum W48_84 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(into = "C")]
#[schemars(!into)]
pub struct W48_85;
#[derive(JsonSchema)]
#[schemars(from = "B")]
#[schemars(into = "C")]
pub struct W48_86 {
    pub a: A,
}
#[derive(JsonSchema)]
#[schemars(from = "B")]
#[schemars(into = "C")]
pub struct W48_87(
    pub A,
);
#[derive(JsonSchema)]
/// docs
#[schemars(from = "B")]
#[schemars(into = "C")]
pub struct W48_88(
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[schemars(from = "B")]
#[schemars(into = "C")]
pub enum W48_89 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[schemars(from = "B")]
#[schemars(into = "C")]
#[serde(tag = "tg")]
#[schemars(title = "TT")]
pub enum W48_90 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(from = "B")]
#[schemars(into = "C")]
pub struct W48_91;
#[derive(JsonSchema)]
#[schemars(try_from = "C")]
pub struct W48_92 {
    pub a: A,
}
#[derive(JsonSchema)]
#[schemars(try_from = "C")]
pub struct W48_93(
    pub A,
);
#[derive(JsonSchema)]
/// docs
#[schemars(try_from = "C")]
pub struct W48_94(
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[schemars(try_from = "C")]
pub enum W48_95 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[schemars(try_from = "C")]
#[serde(tag = "tg")]
#[schemars(title = "TT")]
pub enum W48_96 {
    Va,
    Vb(
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(try_from = "C")]
pub struct W48_97;
#[derive(JsonSchema)]
#[schemars(with = "B")]
pub struct W48_98 {
    pub a: A,
}
#[derive(JsonSchema)]
#[schemars(with = "B")]
pub enum W48_99 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[schemars(with = "B")]
#[schemars(title = "T1")]
pub struct W48_100 {
    pub a: A,
}
#[derive(JsonSchema)]
#[schemars(with = "B")]
#[schemars(title = "T1")]
pub enum W48_101 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[schemars(with = "B")]
#[serde(from = "C")]
#[serde(into = "C")]
pub struct W48_102 {
    pub a: A,
}
#[derive(JsonSchema)]
#[schemars(with = "B")]
#[serde(from = "C")]
#[serde(into = "C")]
pub enum W48_103 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[schemars(schema_with = "sw1")]
pub struct W48_104 {
    pub a: A,
}
#[derive(JsonSchema)]
#[schemars(schema_with = "sw1")]
pub enum W48_105 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[schemars(schema_with = "sw1")]
#[schemars(title = "T1")]
pub struct W48_106 {
    pub a: A,
}
#[derive(JsonSchema)]
#[schemars(schema_with = "sw1")]
#[schemars(title = "T1")]
pub enum W48_107 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[schemars(schema_with = "sw1")]
#[serde(from = "C")]
#[serde(into = "C")]
pub struct W48_108 {
    pub a: A,
}
#[derive(JsonSchema)]
#[schemars(schema_with = "sw1")]
#[serde(from = "C")]
#[serde(into = "C")]
pub enum W48_109 {
    Va,
    Vb,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_110(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_111 {
    pub a: A,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_112 {
    pub a: A,
    #[serde(skip)]
    pub b: std::marker::PhantomData<B>,
}
#[derive(JsonSchema)]
/// docs
#[serde(transparent)]
pub struct W48_113(
    pub A,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_114(
    pub D,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_115 {
    pub a: D,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_116 {
    pub a: D,
    #[serde(skip)]
    pub b: std::marker::PhantomData<B>,
}
#[derive(JsonSchema)]
/// docs
#[serde(transparent)]
pub struct W48_117(
    pub D,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_118(
    pub Option<A>,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_119 {
    pub a: Option<A>,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_120 {
    pub a: Option<A>,
    #[serde(skip)]
    pub b: std::marker::PhantomData<B>,
}
#[derive(JsonSchema)]
/// docs
#[serde(transparent)]
pub struct W48_121(
    pub Option<A>,
);
#[derive(JsonSchema)]
#[serde(remote = "RemoteT")]
pub struct W48_122 {
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[serde(remote = "sup::RemoteT")]
#[schemars(rename = "RenamedR")]
pub struct W48_123 {
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[schemars(inline)]
pub struct W48_124 {
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W48_125(
    pub A,
);
#[derive(JsonSchema)]
pub struct W48_126(
    pub Option<A>,
);
#[repr(u8)]
#[derive(schemars::JsonSchema_repr)]
pub enum Repr1 {
    Va,
    Vb,
    Vc,
}
#[repr(i16)]
#[derive(schemars::JsonSchema_repr)]
/// Docs.
pub enum Repr2 {
    Va = -3,
    Vb = 500,
}
#[derive(JsonSchema)]
/// one
pub struct W38_1 {
    /// one
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// one
pub enum W38_2 {
    /// one
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// one
pub struct W38_3(
    /// one
    pub A,
    pub B,
);
#[derive(JsonSchema)]
/// one
pub struct W38_4;
#[derive(JsonSchema)]
pub enum W38_5 {
    /// one
    Va,
    /// one
    Vb {
        /// one
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_6 {
    /// one
    Va,
    /// one
    Vb {
        /// one
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_7 {
    /// one
    Va,
    /// one
    Vb {
        /// one
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_8 {
    /// one
    Va,
    /// one
    Vb {
        /// one
        a: A,
    },
}
#[derive(JsonSchema)]
///no space
pub struct W38_9 {
    ///no space
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
///no space
pub enum W38_10 {
    ///no space
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
///  two spaces
pub struct W38_11 {
    ///  two spaces
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
///  two spaces
pub enum W38_12 {
    ///  two spaces
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
///	tab
pub struct W38_13 {
    ///	tab
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
///	tab
pub enum W38_14 {
    ///	tab
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// a
/// b
pub struct W38_15 {
    /// a
    /// b
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// a
/// b
pub enum W38_16 {
    /// a
    /// b
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// a
/// b
pub struct W38_17(
    /// a
    /// b
    pub A,
    pub B,
);
#[derive(JsonSchema)]
/// a
/// b
pub struct W38_18;
#[derive(JsonSchema)]
pub enum W38_19 {
    /// a
    /// b
    Va,
    /// a
    /// b
    Vb {
        /// a
        /// b
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_20 {
    /// a
    /// b
    Va,
    /// a
    /// b
    Vb {
        /// a
        /// b
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_21 {
    /// a
    /// b
    Va,
    /// a
    /// b
    Vb {
        /// a
        /// b
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_22 {
    /// a
    /// b
    Va,
    /// a
    /// b
    Vb {
        /// a
        /// b
        a: A,
    },
}
#[derive(JsonSchema)]
/// a
///
/// b
pub struct W38_23 {
    /// a
    ///
    /// b
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// a
///
/// b
pub enum W38_24 {
    /// a
    ///
    /// b
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// a
///
///
/// b
///
/// c
pub struct W38_25 {
    /// a
    ///
    ///
    /// b
    ///
    /// c
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// a
///
///
/// b
///
/// c
pub enum W38_26 {
    /// a
    ///
    ///
    /// b
    ///
    /// c
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
///
/// a
///
pub struct W38_27 {
    ///
    /// a
    ///
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
///
/// a
///
pub enum W38_28 {
    ///
    /// a
    ///
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// a   
/// b	
pub struct W38_29 {
    /// a   
    /// b	
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// a   
/// b	
pub enum W38_30 {
    /// a   
    /// b	
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// a   
/// b	
pub struct W38_31(
    /// a   
    /// b	
    pub A,
    pub B,
);
#[derive(JsonSchema)]
/// a   
/// b	
pub struct W38_32;
#[derive(JsonSchema)]
pub enum W38_33 {
    /// a   
    /// b	
    Va,
    /// a   
    /// b	
    Vb {
        /// a   
        /// b	
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_34 {
    /// a   
    /// b	
    Va,
    /// a   
    /// b	
    Vb {
        /// a   
        /// b	
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_35 {
    /// a   
    /// b	
    Va,
    /// a   
    /// b	
    Vb {
        /// a   
        /// b	
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_36 {
    /// a   
    /// b	
    Va,
    /// a   
    /// b	
    Vb {
        /// a   
        /// b	
        a: A,
    },
}
#[derive(JsonSchema)]
/// - x
///   - y
/// - z
pub struct W38_37 {
    /// - x
    ///   - y
    /// - z
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// - x
///   - y
/// - z
pub enum W38_38 {
    /// - x
    ///   - y
    /// - z
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// ```
///     code
/// ```
pub struct W38_39 {
    /// ```
    ///     code
    /// ```
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// ```
///     code
/// ```
pub enum W38_40 {
    /// ```
    ///     code
    /// ```
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// a
///  b
///c
pub struct W38_41 {
    /// a
    ///  b
    ///c
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// a
///  b
///c
pub enum W38_42 {
    /// a
    ///  b
    ///c
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// # T
pub struct W38_43 {
    /// # T
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// # T
pub enum W38_44 {
    /// # T
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// # T
pub struct W38_45(
    /// # T
    pub A,
    pub B,
);
#[derive(JsonSchema)]
/// # T
pub struct W38_46;
#[derive(JsonSchema)]
pub enum W38_47 {
    /// # T
    Va,
    /// # T
    Vb {
        /// # T
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_48 {
    /// # T
    Va,
    /// # T
    Vb {
        /// # T
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_49 {
    /// # T
    Va,
    /// # T
    Vb {
        /// # T
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_50 {
    /// # T
    Va,
    /// # T
    Vb {
        /// # T
        a: A,
    },
}
#[derive(JsonSchema)]
/// # T
/// d
pub struct W38_51 {
    /// # T
    /// d
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// # T
/// d
pub enum W38_52 {
    /// # T
    /// d
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// # T
///
/// d
///
/// e
pub struct W38_53 {
    /// # T
    ///
    /// d
    ///
    /// e
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// # T
///
/// d
///
/// e
pub enum W38_54 {
    /// # T
    ///
    /// d
    ///
    /// e
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// #T
/// d
pub struct W38_55 {
    /// #T
    /// d
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// #T
/// d
pub enum W38_56 {
    /// #T
    /// d
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// ## T 2 
/// # d
pub struct W38_57 {
    /// ## T 2 
    /// # d
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// ## T 2 
/// # d
pub enum W38_58 {
    /// ## T 2 
    /// # d
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// ## T 2 
/// # d
pub struct W38_59(
    /// ## T 2 
    /// # d
    pub A,
    pub B,
);
#[derive(JsonSchema)]
/// ## T 2 
/// # d
pub struct W38_60;
#[derive(JsonSchema)]
pub enum W38_61 {
    /// ## T 2 
    /// # d
    Va,
    /// ## T 2 
    /// # d
    Vb {
        /// ## T 2 
        /// # d
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_62 {
    /// ## T 2 
    /// # d
    Va,
    /// ## T 2 
    /// # d
    Vb {
        /// ## T 2 
        /// # d
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_63 {
    /// ## T 2 
    /// # d
    Va,
    /// ## T 2 
    /// # d
    Vb {
        /// ## T 2 
        /// # d
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_64 {
    /// ## T 2 
    /// # d
    Va,
    /// ## T 2 
    /// # d
    Vb {
        /// ## T 2 
        /// # d
        a: A,
    },
}
#[derive(JsonSchema)]
/// #
pub struct W38_65 {
    /// #
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// #
pub enum W38_66 {
    /// #
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// #
/// d
pub struct W38_67 {
    /// #
    /// d
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// #
/// d
pub enum W38_68 {
    /// #
    /// d
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// # #T# #
/// d
pub struct W38_69 {
    /// # #T# #
    /// d
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// # #T# #
/// d
pub enum W38_70 {
    /// # #T# #
    /// d
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// ###### x
///
/// # y
pub struct W38_71 {
    /// ###### x
    ///
    /// # y
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// ###### x
///
/// # y
pub enum W38_72 {
    /// ###### x
    ///
    /// # y
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// ###### x
///
/// # y
pub struct W38_73(
    /// ###### x
    ///
    /// # y
    pub A,
    pub B,
);
#[derive(JsonSchema)]
/// ###### x
///
/// # y
pub struct W38_74;
#[derive(JsonSchema)]
pub enum W38_75 {
    /// ###### x
    ///
    /// # y
    Va,
    /// ###### x
    ///
    /// # y
    Vb {
        /// ###### x
        ///
        /// # y
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_76 {
    /// ###### x
    ///
    /// # y
    Va,
    /// ###### x
    ///
    /// # y
    Vb {
        /// ###### x
        ///
        /// # y
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_77 {
    /// ###### x
    ///
    /// # y
    Va,
    /// ###### x
    ///
    /// # y
    Vb {
        /// ###### x
        ///
        /// # y
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_78 {
    /// ###### x
    ///
    /// # y
    Va,
    /// ###### x
    ///
    /// # y
    Vb {
        /// ###### x
        ///
        /// # y
        a: A,
    },
}
#[derive(JsonSchema)]
/// d
/// # T
pub struct W38_79 {
    /// d
    /// # T
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// d
/// # T
pub enum W38_80 {
    /// d
    /// # T
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
///
/// # T
/// d
pub struct W38_81 {
    ///
    /// # T
    /// d
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
///
/// # T
/// d
pub enum W38_82 {
    ///
    /// # T
    /// d
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
///# T
///d
pub struct W38_83 {
    ///# T
    ///d
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
///# T
///d
pub enum W38_84 {
    ///# T
    ///d
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
///   # T
/// d
pub struct W38_85 {
    ///   # T
    /// d
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
///   # T
/// d
pub enum W38_86 {
    ///   # T
    /// d
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
///   # T
/// d
pub struct W38_87(
    ///   # T
    /// d
    pub A,
    pub B,
);
#[derive(JsonSchema)]
///   # T
/// d
pub struct W38_88;
#[derive(JsonSchema)]
pub enum W38_89 {
    ///   # T
    /// d
    Va,
    ///   # T
    /// d
    Vb {
        ///   # T
        /// d
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_90 {
    ///   # T
    /// d
    Va,
    ///   # T
    /// d
    Vb {
        ///   # T
        /// d
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_91 {
    ///   # T
    /// d
    Va,
    ///   # T
    /// d
    Vb {
        ///   # T
        /// d
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_92 {
    ///   # T
    /// d
    Va,
    ///   # T
    /// d
    Vb {
        ///   # T
        /// d
        a: A,
    },
}
#[derive(JsonSchema)]
/// \# T
/// d
pub struct W38_93 {
    /// \# T
    /// d
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// \# T
/// d
pub enum W38_94 {
    /// \# T
    /// d
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// #	T	
/// d
pub struct W38_95 {
    /// #	T	
    /// d
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// #	T	
/// d
pub enum W38_96 {
    /// #	T	
    /// d
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// # T  with   spaces
///     d
pub struct W38_97 {
    /// # T  with   spaces
    ///     d
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// # T  with   spaces
///     d
pub enum W38_98 {
    /// # T  with   spaces
    ///     d
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = "x"]
pub struct W38_99 {
    #[doc = "x"]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = "x"]
pub enum W38_100 {
    #[doc = "x"]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = "x"]
pub struct W38_101(
    #[doc = "x"]
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[doc = "x"]
pub struct W38_102;
#[derive(JsonSchema)]
pub enum W38_103 {
    #[doc = "x"]
    Va,
    #[doc = "x"]
    Vb {
        #[doc = "x"]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_104 {
    #[doc = "x"]
    Va,
    #[doc = "x"]
    Vb {
        #[doc = "x"]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_105 {
    #[doc = "x"]
    Va,
    #[doc = "x"]
    Vb {
        #[doc = "x"]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_106 {
    #[doc = "x"]
    Va,
    #[doc = "x"]
    Vb {
        #[doc = "x"]
        a: A,
    },
}
#[derive(JsonSchema)]
#[doc = " x"]
pub struct W38_107 {
    #[doc = " x"]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = " x"]
pub enum W38_108 {
    #[doc = " x"]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = "  x  "]
pub struct W38_109 {
    #[doc = "  x  "]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = "  x  "]
pub enum W38_110 {
    #[doc = "  x  "]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = "a\nb"]
pub struct W38_111 {
    #[doc = "a\nb"]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = "a\nb"]
pub enum W38_112 {
    #[doc = "a\nb"]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = " a\n b\n\n c"]
pub struct W38_113 {
    #[doc = " a\n b\n\n c"]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = " a\n b\n\n c"]
pub enum W38_114 {
    #[doc = " a\n b\n\n c"]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = " a\n b\n\n c"]
pub struct W38_115(
    #[doc = " a\n b\n\n c"]
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[doc = " a\n b\n\n c"]
pub struct W38_116;
#[derive(JsonSchema)]
pub enum W38_117 {
    #[doc = " a\n b\n\n c"]
    Va,
    #[doc = " a\n b\n\n c"]
    Vb {
        #[doc = " a\n b\n\n c"]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_118 {
    #[doc = " a\n b\n\n c"]
    Va,
    #[doc = " a\n b\n\n c"]
    Vb {
        #[doc = " a\n b\n\n c"]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_119 {
    #[doc = " a\n b\n\n c"]
    Va,
    #[doc = " a\n b\n\n c"]
    Vb {
        #[doc = " a\n b\n\n c"]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_120 {
    #[doc = " a\n b\n\n c"]
    Va,
    #[doc = " a\n b\n\n c"]
    Vb {
        #[doc = " a\n b\n\n c"]
        a: A,
    },
}
#[derive(JsonSchema)]
#[doc = "# T\nd"]
pub struct W38_121 {
    #[doc = "# T\nd"]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = "# T\nd"]
pub enum W38_122 {
    #[doc = "# T\nd"]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = " # T\r\n d\r\n e"]
pub struct W38_123 {
    #[doc = " # T\r\n d\r\n e"]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = " # T\r\n d\r\n e"]
pub enum W38_124 {
    #[doc = " # T\r\n d\r\n e"]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = ""]
#[doc = ""]
pub struct W38_125 {
    #[doc = ""]
    #[doc = ""]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = ""]
#[doc = ""]
pub enum W38_126 {
    #[doc = ""]
    #[doc = ""]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = "\n\n"]
pub struct W38_127 {
    #[doc = "\n\n"]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = "\n\n"]
pub enum W38_128 {
    #[doc = "\n\n"]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = "\n\n"]
pub struct W38_129(
    #[doc = "\n\n"]
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[doc = "\n\n"]
pub struct W38_130;
#[derive(JsonSchema)]
pub enum W38_131 {
    #[doc = "\n\n"]
    Va,
    #[doc = "\n\n"]
    Vb {
        #[doc = "\n\n"]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_132 {
    #[doc = "\n\n"]
    Va,
    #[doc = "\n\n"]
    Vb {
        #[doc = "\n\n"]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_133 {
    #[doc = "\n\n"]
    Va,
    #[doc = "\n\n"]
    Vb {
        #[doc = "\n\n"]
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_134 {
    #[doc = "\n\n"]
    Va,
    #[doc = "\n\n"]
    Vb {
        #[doc = "\n\n"]
        a: A,
    },
}
#[derive(JsonSchema)]
#[doc = " "]
/// x
#[doc = "\t"]
pub struct W38_135 {
    #[doc = " "]
    /// x
    #[doc = "\t"]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = " "]
/// x
#[doc = "\t"]
pub enum W38_136 {
    #[doc = " "]
    /// x
    #[doc = "\t"]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = concat!(" a", " b")]
pub struct W38_137 {
    #[doc = concat!(" a", " b")]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = concat!(" a", " b")]
pub enum W38_138 {
    #[doc = concat!(" a", " b")]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = concat!("# T", "\n", "d")]
pub struct W38_139 {
    #[doc = concat!("# T", "\n", "d")]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = concat!("# T", "\n", "d")]
pub enum W38_140 {
    #[doc = concat!("# T", "\n", "d")]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// a
#[doc = concat!(" b")]
/// c
pub struct W38_141 {
    /// a
    #[doc = concat!(" b")]
    /// c
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// a
#[doc = concat!(" b")]
/// c
pub enum W38_142 {
    /// a
    #[doc = concat!(" b")]
    /// c
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// a
#[doc = concat!(" b")]
/// c
pub struct W38_143(
    /// a
    #[doc = concat!(" b")]
    /// c
    pub A,
    pub B,
);
#[derive(JsonSchema)]
/// a
#[doc = concat!(" b")]
/// c
pub struct W38_144;
#[derive(JsonSchema)]
pub enum W38_145 {
    /// a
    #[doc = concat!(" b")]
    /// c
    Va,
    /// a
    #[doc = concat!(" b")]
    /// c
    Vb {
        /// a
        #[doc = concat!(" b")]
        /// c
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_146 {
    /// a
    #[doc = concat!(" b")]
    /// c
    Va,
    /// a
    #[doc = concat!(" b")]
    /// c
    Vb {
        /// a
        #[doc = concat!(" b")]
        /// c
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_147 {
    /// a
    #[doc = concat!(" b")]
    /// c
    Va,
    /// a
    #[doc = concat!(" b")]
    /// c
    Vb {
        /// a
        #[doc = concat!(" b")]
        /// c
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_148 {
    /// a
    #[doc = concat!(" b")]
    /// c
    Va,
    /// a
    #[doc = concat!(" b")]
    /// c
    Vb {
        /// a
        #[doc = concat!(" b")]
        /// c
        a: A,
    },
}
#[derive(JsonSchema)]
#[doc = stringify!(q)]
pub struct W38_149 {
    #[doc = stringify!(q)]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = stringify!(q)]
pub enum W38_150 {
    #[doc = stringify!(q)]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = r"raw \n x"]
pub struct W38_151 {
    #[doc = r"raw \n x"]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = r"raw \n x"]
pub enum W38_152 {
    #[doc = r"raw \n x"]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// a
#[doc(hidden)]
/// b
pub struct W38_153 {
    /// a
    #[doc(hidden)]
    /// b
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// a
#[doc(hidden)]
/// b
pub enum W38_154 {
    /// a
    #[doc(hidden)]
    /// b
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc(alias = "zz")]
/// b
pub struct W38_155 {
    #[doc(alias = "zz")]
    /// b
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc(alias = "zz")]
/// b
pub enum W38_156 {
    #[doc(alias = "zz")]
    /// b
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc(alias = "zz")]
/// b
pub struct W38_157(
    #[doc(alias = "zz")]
    /// b
    pub A,
    pub B,
);
#[derive(JsonSchema)]
#[doc(alias = "zz")]
/// b
pub struct W38_158;
#[derive(JsonSchema)]
pub enum W38_159 {
    #[doc(alias = "zz")]
    /// b
    Va,
    #[doc(alias = "zz")]
    /// b
    Vb {
        #[doc(alias = "zz")]
        /// b
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_160 {
    #[doc(alias = "zz")]
    /// b
    Va,
    #[doc(alias = "zz")]
    /// b
    Vb {
        #[doc(alias = "zz")]
        /// b
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_161 {
    #[doc(alias = "zz")]
    /// b
    Va,
    #[doc(alias = "zz")]
    /// b
    Vb {
        #[doc(alias = "zz")]
        /// b
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_162 {
    #[doc(alias = "zz")]
    /// b
    Va,
    #[doc(alias = "zz")]
    /// b
    Vb {
        #[doc(alias = "zz")]
        /// b
        a: A,
    },
}
#[derive(JsonSchema)]
/// a
#[allow(dead_code)]
/// b
#[cfg(not(any()))]
/// c
pub struct W38_163 {
    /// a
    #[allow(dead_code)]
    /// b
    #[cfg(not(any()))]
    /// c
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// a
#[allow(dead_code)]
/// b
#[cfg(not(any()))]
/// c
pub enum W38_164 {
    /// a
    #[allow(dead_code)]
    /// b
    #[cfg(not(any()))]
    /// c
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// é ü — “q” 😀
/// ＃ x
pub struct W38_165 {
    /// é ü — “q” 😀
    /// ＃ x
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// é ü — “q” 😀
/// ＃ x
pub enum W38_166 {
    /// é ü — “q” 😀
    /// ＃ x
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
///  nbsp 
pub struct W38_167 {
    ///  nbsp 
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
///  nbsp 
pub enum W38_168 {
    ///  nbsp 
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// "quotes" \ back {braces} %s
pub struct W38_169 {
    /// "quotes" \ back {braces} %s
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// "quotes" \ back {braces} %s
pub enum W38_170 {
    /// "quotes" \ back {braces} %s
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// "quotes" \ back {braces} %s
pub struct W38_171(
    /// "quotes" \ back {braces} %s
    pub A,
    pub B,
);
#[derive(JsonSchema)]
/// "quotes" \ back {braces} %s
pub struct W38_172;
#[derive(JsonSchema)]
pub enum W38_173 {
    /// "quotes" \ back {braces} %s
    Va,
    /// "quotes" \ back {braces} %s
    Vb {
        /// "quotes" \ back {braces} %s
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_174 {
    /// "quotes" \ back {braces} %s
    Va,
    /// "quotes" \ back {braces} %s
    Vb {
        /// "quotes" \ back {braces} %s
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_175 {
    /// "quotes" \ back {braces} %s
    Va,
    /// "quotes" \ back {braces} %s
    Vb {
        /// "quotes" \ back {braces} %s
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_176 {
    /// "quotes" \ back {braces} %s
    Va,
    /// "quotes" \ back {braces} %s
    Vb {
        /// "quotes" \ back {braces} %s
        a: A,
    },
}
#[derive(JsonSchema)]
#[doc = "\u{b}vt\u{b}"]
pub struct W38_177 {
    #[doc = "\u{b}vt\u{b}"]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = "\u{b}vt\u{b}"]
pub enum W38_178 {
    #[doc = "\u{b}vt\u{b}"]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = "\u{c}ff\u{c}"]
pub struct W38_179 {
    #[doc = "\u{c}ff\u{c}"]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = "\u{c}ff\u{c}"]
pub enum W38_180 {
    #[doc = "\u{c}ff\u{c}"]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
#[doc = "\u{2003}em"]
pub struct W38_181 {
    #[doc = "\u{2003}em"]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
#[doc = "\u{2003}em"]
pub enum W38_182 {
    #[doc = "\u{2003}em"]
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// # été
/// à
pub struct W38_183 {
    /// # été
    /// à
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// # été
/// à
pub enum W38_184 {
    /// # été
    /// à
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// # été
/// à
pub struct W38_185(
    /// # été
    /// à
    pub A,
    pub B,
);
#[derive(JsonSchema)]
/// # été
/// à
pub struct W38_186;
#[derive(JsonSchema)]
pub enum W38_187 {
    /// # été
    /// à
    Va,
    /// # été
    /// à
    Vb {
        /// # été
        /// à
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_188 {
    /// # été
    /// à
    Va,
    /// # été
    /// à
    Vb {
        /// # été
        /// à
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_189 {
    /// # été
    /// à
    Va,
    /// # été
    /// à
    Vb {
        /// # été
        /// à
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_190 {
    /// # été
    /// à
    Va,
    /// # été
    /// à
    Vb {
        /// # été
        /// à
        a: A,
    },
}
#[derive(JsonSchema)]
/// <b>x</b> [`link`](u) *e* _f_
pub struct W38_191 {
    /// <b>x</b> [`link`](u) *e* _f_
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// <b>x</b> [`link`](u) *e* _f_
pub enum W38_192 {
    /// <b>x</b> [`link`](u) *e* _f_
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// a  
/// b
pub struct W38_193 {
    /// a  
    /// b
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// a  
/// b
pub enum W38_194 {
    /// a  
    /// b
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// line0
/// line1
/// line2
/// line3
/// line4
/// line5
/// line6
/// line7
/// line8
/// line9
/// line10
/// line11
/// line12
/// line13
/// line14
/// line15
/// line16
/// line17
/// line18
/// line19
/// line20
/// line21
/// line22
/// line23
/// line24
/// line25
/// line26
/// line27
/// line28
/// line29
/// line30
/// line31
/// line32
/// line33
/// line34
/// line35
/// line36
/// line37
/// line38
/// line39
pub struct W38_195 {
    /// line0
    /// line1
    /// line2
    /// line3
    /// line4
    /// line5
    /// line6
    /// line7
    /// line8
    /// line9
    /// line10
    /// line11
    /// line12
    /// line13
    /// line14
    /// line15
    /// line16
    /// line17
    /// line18
    /// line19
    /// line20
    /// line21
    /// line22
    /// line23
    /// line24
    /// line25
    /// line26
    /// line27
    /// line28
    /// line29
    /// line30
    /// line31
    /// line32
    /// line33
    /// line34
    /// line35
    /// line36
    /// line37
    /// line38
    /// line39
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// line0
/// line1
/// line2
/// line3
/// line4
/// line5
/// line6
/// line7
/// line8
/// line9
/// line10
/// line11
/// line12
/// line13
/// line14
/// line15
/// line16
/// line17
/// line18
/// line19
/// line20
/// line21
/// line22
/// line23
/// line24
/// line25
/// line26
/// line27
/// line28
/// line29
/// line30
/// line31
/// line32
/// line33
/// line34
/// line35
/// line36
/// line37
/// line38
/// line39
pub enum W38_196 {
    /// line0
    /// line1
    /// line2
    /// line3
    /// line4
    /// line5
    /// line6
    /// line7
    /// line8
    /// line9
    /// line10
    /// line11
    /// line12
    /// line13
    /// line14
    /// line15
    /// line16
    /// line17
    /// line18
    /// line19
    /// line20
    /// line21
    /// line22
    /// line23
    /// line24
    /// line25
    /// line26
    /// line27
    /// line28
    /// line29
    /// line30
    /// line31
    /// line32
    /// line33
    /// line34
    /// line35
    /// line36
    /// line37
    /// line38
    /// line39
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
/// 
/// yyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
pub struct W38_197 {
    /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
    /// 
    /// yyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
/// 
/// yyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
pub enum W38_198 {
    /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
    /// 
    /// yyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
/// 
/// yyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
pub struct W38_199(
    /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
    /// 
    /// yyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    pub A,
    pub B,
);
#[derive(JsonSchema)]
/// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
/// 
/// yyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
/// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
pub struct W38_200;
#[derive(JsonSchema)]
pub enum W38_201 {
    /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
    /// 
    /// yyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    Va,
    /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
    /// 
    /// yyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    Vb {
        /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
        /// 
        /// yyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_202 {
    /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
    /// 
    /// yyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    Va,
    /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
    /// 
    /// yyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    Vb {
        /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
        /// 
        /// yyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_203 {
    /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
    /// 
    /// yyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    Va,
    /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
    /// 
    /// yyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    Vb {
        /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
        /// 
        /// yyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_204 {
    /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
    /// 
    /// yyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    Va,
    /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
    /// 
    /// yyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
    Vb {
        /// # xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
        /// 
        /// yyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        /// yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy
        a: A,
    },
}
#[derive(JsonSchema)]
/** block */
pub struct W38_205 {
    /** block */
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/** block */
pub enum W38_206 {
    /** block */
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/** # T
 d
*/
pub struct W38_207 {
    /** # T
 d
*/
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/** # T
 d
*/
pub enum W38_208 {
    /** # T
 d
*/
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/**
 a
 b
*/
pub struct W38_209 {
    /**
 a
 b
*/
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/**
 a
 b
*/
pub enum W38_210 {
    /**
 a
 b
*/
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// # T
#[doc = "d"]
/// e
pub struct W38_211 {
    /// # T
    #[doc = "d"]
    /// e
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// # T
#[doc = "d"]
/// e
pub enum W38_212 {
    /// # T
    #[doc = "d"]
    /// e
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// # T
#[doc = "d"]
/// e
pub struct W38_213(
    /// # T
    #[doc = "d"]
    /// e
    pub A,
    pub B,
);
#[derive(JsonSchema)]
/// # T
#[doc = "d"]
/// e
pub struct W38_214;
#[derive(JsonSchema)]
pub enum W38_215 {
    /// # T
    #[doc = "d"]
    /// e
    Va,
    /// # T
    #[doc = "d"]
    /// e
    Vb {
        /// # T
        #[doc = "d"]
        /// e
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W38_216 {
    /// # T
    #[doc = "d"]
    /// e
    Va,
    /// # T
    #[doc = "d"]
    /// e
    Vb {
        /// # T
        #[doc = "d"]
        /// e
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W38_217 {
    /// # T
    #[doc = "d"]
    /// e
    Va,
    /// # T
    #[doc = "d"]
    /// e
    Vb {
        /// # T
        #[doc = "d"]
        /// e
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W38_218 {
    /// # T
    #[doc = "d"]
    /// e
    Va,
    /// # T
    #[doc = "d"]
    /// e
    Vb {
        /// # T
        #[doc = "d"]
        /// e
        a: A,
    },
}
#[derive(JsonSchema)]
/// # T
///   
/// 	
/// d
pub struct W38_219 {
    /// # T
    ///   
    /// 	
    /// d
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// # T
///   
/// 	
/// d
pub enum W38_220 {
    /// # T
    ///   
    /// 	
    /// d
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// #1 not a space
/// d
pub struct W38_221 {
    /// #1 not a space
    /// d
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// #1 not a space
/// d
pub enum W38_222 {
    /// #1 not a space
    /// d
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
/// a
/// 
///  
/// b
pub struct W38_223 {
    /// a
    /// 
    ///  
    /// b
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
/// a
/// 
///  
/// b
pub enum W38_224 {
    /// a
    /// 
    ///  
    /// b
    Va(
        A,
    ),
    Vb,
}
#[derive(JsonSchema)]
pub struct W40_1 {
    #[schemars(contains(pattern = "\u{1}"))]
    pub f0: String,
    #[schemars(contains(pattern = "\u{2}"))]
    pub f1: String,
    #[schemars(contains(pattern = "\u{3}"))]
    pub f2: String,
    #[schemars(contains(pattern = "\u{4}"))]
    pub f3: String,
    #[schemars(contains(pattern = "\u{5}"))]
    pub f4: String,
    #[schemars(contains(pattern = "\u{6}"))]
    pub f5: String,
    #[schemars(contains(pattern = "\u{7}"))]
    pub f6: String,
    #[schemars(contains(pattern = "\u{8}"))]
    pub f7: String,
    #[schemars(contains(pattern = "\t"))]
    pub f8: String,
    #[schemars(contains(pattern = "\n"))]
    pub f9: String,
    #[schemars(contains(pattern = "\u{b}"))]
    pub f10: String,
    #[schemars(contains(pattern = "\u{c}"))]
    pub f11: String,
    #[schemars(contains(pattern = "\r"))]
    pub f12: String,
    #[schemars(contains(pattern = "\u{e}"))]
    pub f13: String,
    #[schemars(contains(pattern = "\u{f}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_2 {
    #[schemars(contains(pattern = "\u{10}"))]
    pub f0: String,
    #[schemars(contains(pattern = "\u{11}"))]
    pub f1: String,
    #[schemars(contains(pattern = "\u{12}"))]
    pub f2: String,
    #[schemars(contains(pattern = "\u{13}"))]
    pub f3: String,
    #[schemars(contains(pattern = "\u{14}"))]
    pub f4: String,
    #[schemars(contains(pattern = "\u{15}"))]
    pub f5: String,
    #[schemars(contains(pattern = "\u{16}"))]
    pub f6: String,
    #[schemars(contains(pattern = "\u{17}"))]
    pub f7: String,
    #[schemars(contains(pattern = "\u{18}"))]
    pub f8: String,
    #[schemars(contains(pattern = "\u{19}"))]
    pub f9: String,
    #[schemars(contains(pattern = "\u{1a}"))]
    pub f10: String,
    #[schemars(contains(pattern = "\u{1b}"))]
    pub f11: String,
    #[schemars(contains(pattern = "\u{1c}"))]
    pub f12: String,
    #[schemars(contains(pattern = "\u{1d}"))]
    pub f13: String,
    #[schemars(contains(pattern = "\u{1e}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_3 {
    #[schemars(contains(pattern = "\u{1f}"))]
    pub f0: String,
    #[schemars(contains(pattern = " "))]
    pub f1: String,
    #[schemars(contains(pattern = "!"))]
    pub f2: String,
    #[schemars(contains(pattern = "\""))]
    pub f3: String,
    #[schemars(contains(pattern = "#"))]
    pub f4: String,
    #[schemars(contains(pattern = "$"))]
    pub f5: String,
    #[schemars(contains(pattern = "%"))]
    pub f6: String,
    #[schemars(contains(pattern = "&"))]
    pub f7: String,
    #[schemars(contains(pattern = "'"))]
    pub f8: String,
    #[schemars(contains(pattern = "("))]
    pub f9: String,
    #[schemars(contains(pattern = ")"))]
    pub f10: String,
    #[schemars(contains(pattern = "*"))]
    pub f11: String,
    #[schemars(contains(pattern = "+"))]
    pub f12: String,
    #[schemars(contains(pattern = ","))]
    pub f13: String,
    #[schemars(contains(pattern = "-"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_4 {
    #[schemars(contains(pattern = "."))]
    pub f0: String,
    #[schemars(contains(pattern = "/"))]
    pub f1: String,
    #[schemars(contains(pattern = "0"))]
    pub f2: String,
    #[schemars(contains(pattern = "1"))]
    pub f3: String,
    #[schemars(contains(pattern = "2"))]
    pub f4: String,
    #[schemars(contains(pattern = "3"))]
    pub f5: String,
    #[schemars(contains(pattern = "4"))]
    pub f6: String,
    #[schemars(contains(pattern = "5"))]
    pub f7: String,
    #[schemars(contains(pattern = "6"))]
    pub f8: String,
    #[schemars(contains(pattern = "7"))]
    pub f9: String,
    #[schemars(contains(pattern = "8"))]
    pub f10: String,
    #[schemars(contains(pattern = "9"))]
    pub f11: String,
    #[schemars(contains(pattern = ":"))]
    pub f12: String,
    #[schemars(contains(pattern = ";"))]
    pub f13: String,
    #[schemars(contains(pattern = "<"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_5 {
    #[schemars(contains(pattern = "="))]
    pub f0: String,
    #[schemars(contains(pattern = ">"))]
    pub f1: String,
    #[schemars(contains(pattern = "?"))]
    pub f2: String,
    #[schemars(contains(pattern = "@"))]
    pub f3: String,
    #[schemars(contains(pattern = "A"))]
    pub f4: String,
    #[schemars(contains(pattern = "B"))]
    pub f5: String,
    #[schemars(contains(pattern = "C"))]
    pub f6: String,
    #[schemars(contains(pattern = "D"))]
    pub f7: String,
    #[schemars(contains(pattern = "E"))]
    pub f8: String,
    #[schemars(contains(pattern = "F"))]
    pub f9: String,
    #[schemars(contains(pattern = "G"))]
    pub f10: String,
    #[schemars(contains(pattern = "H"))]
    pub f11: String,
    #[schemars(contains(pattern = "I"))]
    pub f12: String,
    #[schemars(contains(pattern = "J"))]
    pub f13: String,
    #[schemars(contains(pattern = "K"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_6 {
    #[schemars(contains(pattern = "L"))]
    pub f0: String,
    #[schemars(contains(pattern = "M"))]
    pub f1: String,
    #[schemars(contains(pattern = "N"))]
    pub f2: String,
    #[schemars(contains(pattern = "O"))]
    pub f3: String,
    #[schemars(contains(pattern = "P"))]
    pub f4: String,
    #[schemars(contains(pattern = "Q"))]
    pub f5: String,
    #[schemars(contains(pattern = "R"))]
    pub f6: String,
    #[schemars(contains(pattern = "S"))]
    pub f7: String,
    #[schemars(contains(pattern = "T"))]
    pub f8: String,
    #[schemars(contains(pattern = "U"))]
    pub f9: String,
    #[schemars(contains(pattern = "V"))]
    pub f10: String,
    #[schemars(contains(pattern = "W"))]
    pub f11: String,
    #[schemars(contains(pattern = "X"))]
    pub f12: String,
    #[schemars(contains(pattern = "Y"))]
    pub f13: String,
    #[schemars(contains(pattern = "Z"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_7 {
    #[schemars(contains(pattern = "["))]
    pub f0: String,
    #[schemars(contains(pattern = "\\"))]
    pub f1: String,
    #[schemars(contains(pattern = "]"))]
    pub f2: String,
    #[schemars(contains(pattern = "^"))]
    pub f3: String,
    #[schemars(contains(pattern = "_"))]
    pub f4: String,
    #[schemars(contains(pattern = "`"))]
    pub f5: String,
    #[schemars(contains(pattern = "a"))]
    pub f6: String,
    #[schemars(contains(pattern = "b"))]
    pub f7: String,
    #[schemars(contains(pattern = "c"))]
    pub f8: String,
    #[schemars(contains(pattern = "d"))]
    pub f9: String,
    #[schemars(contains(pattern = "e"))]
    pub f10: String,
    #[schemars(contains(pattern = "f"))]
    pub f11: String,
    #[schemars(contains(pattern = "g"))]
    pub f12: String,
    #[schemars(contains(pattern = "h"))]
    pub f13: String,
    #[schemars(contains(pattern = "i"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_8 {
    #[schemars(contains(pattern = "j"))]
    pub f0: String,
    #[schemars(contains(pattern = "k"))]
    pub f1: String,
    #[schemars(contains(pattern = "l"))]
    pub f2: String,
    #[schemars(contains(pattern = "m"))]
    pub f3: String,
    #[schemars(contains(pattern = "n"))]
    pub f4: String,
    #[schemars(contains(pattern = "o"))]
    pub f5: String,
    #[schemars(contains(pattern = "p"))]
    pub f6: String,
    #[schemars(contains(pattern = "q"))]
    pub f7: String,
    #[schemars(contains(pattern = "r"))]
    pub f8: String,
    #[schemars(contains(pattern = "s"))]
    pub f9: String,
    #[schemars(contains(pattern = "t"))]
    pub f10: String,
    #[schemars(contains(pattern = "u"))]
    pub f11: String,
    #[schemars(contains(pattern = "v"))]
    pub f12: String,
    #[schemars(contains(pattern = "w"))]
    pub f13: String,
    #[schemars(contains(pattern = "x"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_9 {
    #[schemars(contains(pattern = "y"))]
    pub f0: String,
    #[schemars(contains(pattern = "z"))]
    pub f1: String,
    #[schemars(contains(pattern = "{"))]
    pub f2: String,
    #[schemars(contains(pattern = "|"))]
    pub f3: String,
    #[schemars(contains(pattern = "}"))]
    pub f4: String,
    #[schemars(contains(pattern = "~"))]
    pub f5: String,
    #[schemars(contains(pattern = "\u{7f}"))]
    pub f6: String,
    #[schemars(contains(pattern = ""))]
    pub f7: String,
    #[schemars(contains(pattern = "\u{0}"))]
    pub f8: String,
    #[schemars(contains(pattern = "é"))]
    pub f9: String,
    #[schemars(contains(pattern = "ß"))]
    pub f10: String,
    #[schemars(contains(pattern = "\u{a0}"))]
    pub f11: String,
    #[schemars(contains(pattern = "\u{2028}"))]
    pub f12: String,
    #[schemars(contains(pattern = "\u{2029}"))]
    pub f13: String,
    #[schemars(contains(pattern = "\u{feff}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_10 {
    #[schemars(contains(pattern = "￿"))]
    pub f0: String,
    #[schemars(contains(pattern = "퟿"))]
    pub f1: String,
    #[schemars(contains(pattern = ""))]
    pub f2: String,
    #[schemars(contains(pattern = "😀"))]
    pub f3: String,
    #[schemars(contains(pattern = "􏿿"))]
    pub f4: String,
    #[schemars(contains(pattern = "a.b"))]
    pub f5: String,
    #[schemars(contains(pattern = ".."))]
    pub f6: String,
    #[schemars(contains(pattern = "\\"))]
    pub f7: String,
    #[schemars(contains(pattern = "\\\\"))]
    pub f8: String,
    #[schemars(contains(pattern = "\\d"))]
    pub f9: String,
    #[schemars(contains(pattern = "^$"))]
    pub f10: String,
    #[schemars(contains(pattern = "^a$"))]
    pub f11: String,
    #[schemars(contains(pattern = "(?i)x"))]
    pub f12: String,
    #[schemars(contains(pattern = "[a-z]"))]
    pub f13: String,
    #[schemars(contains(pattern = "a{2,3}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_11 {
    #[schemars(contains(pattern = "x*y+z?"))]
    pub f0: String,
    #[schemars(contains(pattern = "$1"))]
    pub f1: String,
    #[schemars(contains(pattern = "(a|b)"))]
    pub f2: String,
    #[schemars(contains(pattern = "a\nb"))]
    pub f3: String,
    #[schemars(contains(pattern = "\t.\t"))]
    pub f4: String,
    #[schemars(contains(pattern = "  "))]
    pub f5: String,
    #[schemars(contains(pattern = "/*"))]
    pub f6: String,
    #[schemars(contains(pattern = "//"))]
    pub f7: String,
    #[schemars(contains(pattern = "#{}"))]
    pub f8: String,
    #[schemars(contains(pattern = "x-y_z"))]
    pub f9: String,
    #[schemars(contains(pattern = "~!@#%&=;:,<>'\"`"))]
    pub f10: String,
    #[schemars(contains(pattern = "\\Q.*\\E"))]
    pub f11: String,
    #[schemars(contains(pattern = "......................................................................"))]
    pub f12: String,
    #[schemars(contains(pattern = "ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab."))]
    pub f13: String,
    #[schemars(contains(pattern = "é.é"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_12 {
    #[schemars(contains(pattern = ".é"))]
    pub f0: String,
    #[schemars(contains(pattern = "é."))]
    pub f1: String,
    #[schemars(contains(pattern = "😀+😀"))]
    pub f2: String,
    #[schemars(contains(pattern = "\u{7f}."))]
    pub f3: String,
    #[schemars(contains(pattern = "A.Z"))]
    pub f4: String,
}
#[derive(JsonSchema)]
pub struct W40_13 {
    #[validate(contains(pattern = "\u{1}"))]
    pub f0: String,
    #[validate(contains(pattern = "\u{2}"))]
    pub f1: String,
    #[validate(contains(pattern = "\u{3}"))]
    pub f2: String,
    #[validate(contains(pattern = "\u{4}"))]
    pub f3: String,
    #[validate(contains(pattern = "\u{5}"))]
    pub f4: String,
    #[validate(contains(pattern = "\u{6}"))]
    pub f5: String,
    #[validate(contains(pattern = "\u{7}"))]
    pub f6: String,
    #[validate(contains(pattern = "\u{8}"))]
    pub f7: String,
    #[validate(contains(pattern = "\t"))]
    pub f8: String,
    #[validate(contains(pattern = "\n"))]
    pub f9: String,
    #[validate(contains(pattern = "\u{b}"))]
    pub f10: String,
    #[validate(contains(pattern = "\u{c}"))]
    pub f11: String,
    #[validate(contains(pattern = "\r"))]
    pub f12: String,
    #[validate(contains(pattern = "\u{e}"))]
    pub f13: String,
    #[validate(contains(pattern = "\u{f}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_14 {
    #[validate(contains(pattern = "\u{10}"))]
    pub f0: String,
    #[validate(contains(pattern = "\u{11}"))]
    pub f1: String,
    #[validate(contains(pattern = "\u{12}"))]
    pub f2: String,
    #[validate(contains(pattern = "\u{13}"))]
    pub f3: String,
    #[validate(contains(pattern = "\u{14}"))]
    pub f4: String,
    #[validate(contains(pattern = "\u{15}"))]
    pub f5: String,
    #[validate(contains(pattern = "\u{16}"))]
    pub f6: String,
    #[validate(contains(pattern = "\u{17}"))]
    pub f7: String,
    #[validate(contains(pattern = "\u{18}"))]
    pub f8: String,
    #[validate(contains(pattern = "\u{19}"))]
    pub f9: String,
    #[validate(contains(pattern = "\u{1a}"))]
    pub f10: String,
    #[validate(contains(pattern = "\u{1b}"))]
    pub f11: String,
    #[validate(contains(pattern = "\u{1c}"))]
    pub f12: String,
    #[validate(contains(pattern = "\u{1d}"))]
    pub f13: String,
    #[validate(contains(pattern = "\u{1e}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_15 {
    #[validate(contains(pattern = "\u{1f}"))]
    pub f0: String,
    #[validate(contains(pattern = " "))]
    pub f1: String,
    #[validate(contains(pattern = "!"))]
    pub f2: String,
    #[validate(contains(pattern = "\""))]
    pub f3: String,
    #[validate(contains(pattern = "#"))]
    pub f4: String,
    #[validate(contains(pattern = "$"))]
    pub f5: String,
    #[validate(contains(pattern = "%"))]
    pub f6: String,
    #[validate(contains(pattern = "&"))]
    pub f7: String,
    #[validate(contains(pattern = "'"))]
    pub f8: String,
    #[validate(contains(pattern = "("))]
    pub f9: String,
    #[validate(contains(pattern = ")"))]
    pub f10: String,
    #[validate(contains(pattern = "*"))]
    pub f11: String,
    #[validate(contains(pattern = "+"))]
    pub f12: String,
    #[validate(contains(pattern = ","))]
    pub f13: String,
    #[validate(contains(pattern = "-"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_16 {
    #[validate(contains(pattern = "."))]
    pub f0: String,
    #[validate(contains(pattern = "/"))]
    pub f1: String,
    #[validate(contains(pattern = "0"))]
    pub f2: String,
    #[validate(contains(pattern = "1"))]
    pub f3: String,
    #[validate(contains(pattern = "2"))]
    pub f4: String,
    #[validate(contains(pattern = "3"))]
    pub f5: String,
    #[validate(contains(pattern = "4"))]
    pub f6: String,
    #[validate(contains(pattern = "5"))]
    pub f7: String,
    #[validate(contains(pattern = "6"))]
    pub f8: String,
    #[validate(contains(pattern = "7"))]
    pub f9: String,
    #[validate(contains(pattern = "8"))]
    pub f10: String,
    #[validate(contains(pattern = "9"))]
    pub f11: String,
    #[validate(contains(pattern = ":"))]
    pub f12: String,
    #[validate(contains(pattern = ";"))]
    pub f13: String,
    #[validate(contains(pattern = "<"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_17 {
    #[validate(contains(pattern = "="))]
    pub f0: String,
    #[validate(contains(pattern = ">"))]
    pub f1: String,
    #[validate(contains(pattern = "?"))]
    pub f2: String,
    #[validate(contains(pattern = "@"))]
    pub f3: String,
    #[validate(contains(pattern = "A"))]
    pub f4: String,
    #[validate(contains(pattern = "B"))]
    pub f5: String,
    #[validate(contains(pattern = "C"))]
    pub f6: String,
    #[validate(contains(pattern = "D"))]
    pub f7: String,
    #[validate(contains(pattern = "E"))]
    pub f8: String,
    #[validate(contains(pattern = "F"))]
    pub f9: String,
    #[validate(contains(pattern = "G"))]
    pub f10: String,
    #[validate(contains(pattern = "H"))]
    pub f11: String,
    #[validate(contains(pattern = "I"))]
    pub f12: String,
    #[validate(contains(pattern = "J"))]
    pub f13: String,
    #[validate(contains(pattern = "K"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_18 {
    #[validate(contains(pattern = "L"))]
    pub f0: String,
    #[validate(contains(pattern = "M"))]
    pub f1: String,
    #[validate(contains(pattern = "N"))]
    pub f2: String,
    #[validate(contains(pattern = "O"))]
    pub f3: String,
    #[validate(contains(pattern = "P"))]
    pub f4: String,
    #[validate(contains(pattern = "Q"))]
    pub f5: String,
    #[validate(contains(pattern = "R"))]
    pub f6: String,
    #[validate(contains(pattern = "S"))]
    pub f7: String,
    #[validate(contains(pattern = "T"))]
    pub f8: String,
    #[validate(contains(pattern = "U"))]
    pub f9: String,
    #[validate(contains(pattern = "V"))]
    pub f10: String,
    #[validate(contains(pattern = "W"))]
    pub f11: String,
    #[validate(contains(pattern = "X"))]
    pub f12: String,
    #[validate(contains(pattern = "Y"))]
    pub f13: String,
    #[validate(contains(pattern = "Z"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_19 {
    #[validate(contains(pattern = "["))]
    pub f0: String,
    #[validate(contains(pattern = "\\"))]
    pub f1: String,
    #[validate(contains(pattern = "]"))]
    pub f2: String,
    #[validate(contains(pattern = "^"))]
    pub f3: String,
    #[validate(contains(pattern = "_"))]
    pub f4: String,
    #[validate(contains(pattern = "`"))]
    pub f5: String,
    #[validate(contains(pattern = "a"))]
    pub f6: String,
    #[validate(contains(pattern = "b"))]
    pub f7: String,
    #[validate(contains(pattern = "c"))]
    pub f8: String,
    #[validate(contains(pattern = "d"))]
    pub f9: String,
    #[validate(contains(pattern = "e"))]
    pub f10: String,
    #[validate(contains(pattern = "f"))]
    pub f11: String,
    #[validate(contains(pattern = "g"))]
    pub f12: String,
    #[validate(contains(pattern = "h"))]
    pub f13: String,
    #[validate(contains(pattern = "i"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_20 {
    #[validate(contains(pattern = "j"))]
    pub f0: String,
    #[validate(contains(pattern = "k"))]
    pub f1: String,
    #[validate(contains(pattern = "l"))]
    pub f2: String,
    #[validate(contains(pattern = "m"))]
    pub f3: String,
    #[validate(contains(pattern = "n"))]
    pub f4: String,
    #[validate(contains(pattern = "o"))]
    pub f5: String,
    #[validate(contains(pattern = "p"))]
    pub f6: String,
    #[validate(contains(pattern = "q"))]
    pub f7: String,
    #[validate(contains(pattern = "r"))]
    pub f8: String,
    #[validate(contains(pattern = "s"))]
    pub f9: String,
    #[validate(contains(pattern = "t"))]
    pub f10: String,
    #[validate(contains(pattern = "u"))]
    pub f11: String,
    #[validate(contains(pattern = "v"))]
    pub f12: String,
    #[validate(contains(pattern = "w"))]
    pub f13: String,
    #[validate(contains(pattern = "x"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_21 {
    #[validate(contains(pattern = "y"))]
    pub f0: String,
    #[validate(contains(pattern = "z"))]
    pub f1: String,
    #[validate(contains(pattern = "{"))]
    pub f2: String,
    #[validate(contains(pattern = "|"))]
    pub f3: String,
    #[validate(contains(pattern = "}"))]
    pub f4: String,
    #[validate(contains(pattern = "~"))]
    pub f5: String,
    #[validate(contains(pattern = "\u{7f}"))]
    pub f6: String,
    #[validate(contains(pattern = ""))]
    pub f7: String,
    #[validate(contains(pattern = "\u{0}"))]
    pub f8: String,
    #[validate(contains(pattern = "é"))]
    pub f9: String,
    #[validate(contains(pattern = "ß"))]
    pub f10: String,
    #[validate(contains(pattern = "\u{a0}"))]
    pub f11: String,
    #[validate(contains(pattern = "\u{2028}"))]
    pub f12: String,
    #[validate(contains(pattern = "\u{2029}"))]
    pub f13: String,
    #[validate(contains(pattern = "\u{feff}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_22 {
    #[validate(contains(pattern = "￿"))]
    pub f0: String,
    #[validate(contains(pattern = "퟿"))]
    pub f1: String,
    #[validate(contains(pattern = ""))]
    pub f2: String,
    #[validate(contains(pattern = "😀"))]
    pub f3: String,
    #[validate(contains(pattern = "􏿿"))]
    pub f4: String,
    #[validate(contains(pattern = "a.b"))]
    pub f5: String,
    #[validate(contains(pattern = ".."))]
    pub f6: String,
    #[validate(contains(pattern = "\\"))]
    pub f7: String,
    #[validate(contains(pattern = "\\\\"))]
    pub f8: String,
    #[validate(contains(pattern = "\\d"))]
    pub f9: String,
    #[validate(contains(pattern = "^$"))]
    pub f10: String,
    #[validate(contains(pattern = "^a$"))]
    pub f11: String,
    #[validate(contains(pattern = "(?i)x"))]
    pub f12: String,
    #[validate(contains(pattern = "[a-z]"))]
    pub f13: String,
    #[validate(contains(pattern = "a{2,3}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_23 {
    #[validate(contains(pattern = "x*y+z?"))]
    pub f0: String,
    #[validate(contains(pattern = "$1"))]
    pub f1: String,
    #[validate(contains(pattern = "(a|b)"))]
    pub f2: String,
    #[validate(contains(pattern = "a\nb"))]
    pub f3: String,
    #[validate(contains(pattern = "\t.\t"))]
    pub f4: String,
    #[validate(contains(pattern = "  "))]
    pub f5: String,
    #[validate(contains(pattern = "/*"))]
    pub f6: String,
    #[validate(contains(pattern = "//"))]
    pub f7: String,
    #[validate(contains(pattern = "#{}"))]
    pub f8: String,
    #[validate(contains(pattern = "x-y_z"))]
    pub f9: String,
    #[validate(contains(pattern = "~!@#%&=;:,<>'\"`"))]
    pub f10: String,
    #[validate(contains(pattern = "\\Q.*\\E"))]
    pub f11: String,
    #[validate(contains(pattern = "......................................................................"))]
    pub f12: String,
    #[validate(contains(pattern = "ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab."))]
    pub f13: String,
    #[validate(contains(pattern = "é.é"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_24 {
    #[validate(contains(pattern = ".é"))]
    pub f0: String,
    #[validate(contains(pattern = "é."))]
    pub f1: String,
    #[validate(contains(pattern = "😀+😀"))]
    pub f2: String,
    #[validate(contains(pattern = "\u{7f}."))]
    pub f3: String,
    #[validate(contains(pattern = "A.Z"))]
    pub f4: String,
}
#[derive(JsonSchema)]
pub struct W40_25 {
    #[garde(contains("\u{1}"))]
    pub f0: String,
    #[garde(contains("\u{2}"))]
    pub f1: String,
    #[garde(contains("\u{3}"))]
    pub f2: String,
    #[garde(contains("\u{4}"))]
    pub f3: String,
    #[garde(contains("\u{5}"))]
    pub f4: String,
    #[garde(contains("\u{6}"))]
    pub f5: String,
    #[garde(contains("\u{7}"))]
    pub f6: String,
    #[garde(contains("\u{8}"))]
    pub f7: String,
    #[garde(contains("\t"))]
    pub f8: String,
    #[garde(contains("\n"))]
    pub f9: String,
    #[garde(contains("\u{b}"))]
    pub f10: String,
    #[garde(contains("\u{c}"))]
    pub f11: String,
    #[garde(contains("\r"))]
    pub f12: String,
    #[garde(contains("\u{e}"))]
    pub f13: String,
    #[garde(contains("\u{f}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_26 {
    #[garde(contains("\u{10}"))]
    pub f0: String,
    #[garde(contains("\u{11}"))]
    pub f1: String,
    #[garde(contains("\u{12}"))]
    pub f2: String,
    #[garde(contains("\u{13}"))]
    pub f3: String,
    #[garde(contains("\u{14}"))]
    pub f4: String,
    #[garde(contains("\u{15}"))]
    pub f5: String,
    #[garde(contains("\u{16}"))]
    pub f6: String,
    #[garde(contains("\u{17}"))]
    pub f7: String,
    #[garde(contains("\u{18}"))]
    pub f8: String,
    #[garde(contains("\u{19}"))]
    pub f9: String,
    #[garde(contains("\u{1a}"))]
    pub f10: String,
    #[garde(contains("\u{1b}"))]
    pub f11: String,
    #[garde(contains("\u{1c}"))]
    pub f12: String,
    #[garde(contains("\u{1d}"))]
    pub f13: String,
    #[garde(contains("\u{1e}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_27 {
    #[garde(contains("\u{1f}"))]
    pub f0: String,
    #[garde(contains(" "))]
    pub f1: String,
    #[garde(contains("!"))]
    pub f2: String,
    #[garde(contains("\""))]
    pub f3: String,
    #[garde(contains("#"))]
    pub f4: String,
    #[garde(contains("$"))]
    pub f5: String,
    #[garde(contains("%"))]
    pub f6: String,
    #[garde(contains("&"))]
    pub f7: String,
    #[garde(contains("'"))]
    pub f8: String,
    #[garde(contains("("))]
    pub f9: String,
    #[garde(contains(")"))]
    pub f10: String,
    #[garde(contains("*"))]
    pub f11: String,
    #[garde(contains("+"))]
    pub f12: String,
    #[garde(contains(","))]
    pub f13: String,
    #[garde(contains("-"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_28 {
    #[garde(contains("."))]
    pub f0: String,
    #[garde(contains("/"))]
    pub f1: String,
    #[garde(contains("0"))]
    pub f2: String,
    #[garde(contains("1"))]
    pub f3: String,
    #[garde(contains("2"))]
    pub f4: String,
    #[garde(contains("3"))]
    pub f5: String,
    #[garde(contains("4"))]
    pub f6: String,
    #[garde(contains("5"))]
    pub f7: String,
    #[garde(contains("6"))]
    pub f8: String,
    #[garde(contains("7"))]
    pub f9: String,
    #[garde(contains("8"))]
    pub f10: String,
    #[garde(contains("9"))]
    pub f11: String,
    #[garde(contains(":"))]
    pub f12: String,
    #[garde(contains(";"))]
    pub f13: String,
    #[garde(contains("<"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_29 {
    #[garde(contains("="))]
    pub f0: String,
    #[garde(contains(">"))]
    pub f1: String,
    #[garde(contains("?"))]
    pub f2: String,
    #[garde(contains("@"))]
    pub f3: String,
    #[garde(contains("A"))]
    pub f4: String,
    #[garde(contains("B"))]
    pub f5: String,
    #[garde(contains("C"))]
    pub f6: String,
    #[garde(contains("D"))]
    pub f7: String,
    #[garde(contains("E"))]
    pub f8: String,
    #[garde(contains("F"))]
    pub f9: String,
    #[garde(contains("G"))]
    pub f10: String,
    #[garde(contains("H"))]
    pub f11: String,
    #[garde(contains("I"))]
    pub f12: String,
    #[garde(contains("J"))]
    pub f13: String,
    #[garde(contains("K"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_30 {
    #[garde(contains("L"))]
    pub f0: String,
    #[garde(contains("M"))]
    pub f1: String,
    #[garde(contains("N"))]
    pub f2: String,
    #[garde(contains("O"))]
    pub f3: String,
    #[garde(contains("P"))]
    pub f4: String,
    #[garde(contains("Q"))]
    pub f5: String,
    #[garde(contains("R"))]
    pub f6: String,
    #[garde(contains("S"))]
    pub f7: String,
    #[garde(contains("T"))]
    pub f8: String,
    #[garde(contains("U"))]
    pub f9: String,
    #[garde(contains("V"))]
    pub f10: String,
    #[garde(contains("W"))]
    pub f11: String,
    #[garde(contains("X"))]
    pub f12: String,
    #[garde(contains("Y"))]
    pub f13: String,
    #[garde(contains("Z"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_31 {
    #[garde(contains("["))]
    pub f0: String,
    #[garde(contains("\\"))]
    pub f1: String,
    #[garde(contains("]"))]
    pub f2: String,
    #[garde(contains("^"))]
    pub f3: String,
    #[garde(contains("_"))]
    pub f4: String,
    #[garde(contains("`"))]
    pub f5: String,
    #[garde(contains("a"))]
    pub f6: String,
    #[garde(contains("b"))]
    pub f7: String,
    #[garde(contains("c"))]
    pub f8: String,
    #[garde(contains("d"))]
    pub f9: String,
    #[garde(contains("e"))]
    pub f10: String,
    #[garde(contains("f"))]
    pub f11: String,
    #[garde(contains("g"))]
    pub f12: String,
    #[garde(contains("h"))]
    pub f13: String,
    #[garde(contains("i"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_32 {
    #[garde(contains("j"))]
    pub f0: String,
    #[garde(contains("k"))]
    pub f1: String,
    #[garde(contains("l"))]
    pub f2: String,
    #[garde(contains("m"))]
    pub f3: String,
    #[garde(contains("n"))]
    pub f4: String,
    #[garde(contains("o"))]
    pub f5: String,
    #[garde(contains("p"))]
    pub f6: String,
    #[garde(contains("q"))]
    pub f7: String,
    #[garde(contains("r"))]
    pub f8: String,
    #[garde(contains("s"))]
    pub f9: String,
    #[garde(contains("t"))]
    pub f10: String,
    #[garde(contains("u"))]
    pub f11: String,
    #[garde(contains("v"))]
    pub f12: String,
    #[garde(contains("w"))]
    pub f13: String,
    #[garde(contains("x"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_33 {
    #[garde(contains("y"))]
    pub f0: String,
    #[garde(contains("z"))]
    pub f1: String,
    #[garde(contains("{"))]
    pub f2: String,
    #[garde(contains("|"))]
    pub f3: String,
    #[garde(contains("}"))]
    pub f4: String,
    #[garde(contains("~"))]
    pub f5: String,
    #[garde(contains("\u{7f}"))]
    pub f6: String,
    #[garde(contains(""))]
    pub f7: String,
    #[garde(contains("\u{0}"))]
    pub f8: String,
    #[garde(contains("é"))]
    pub f9: String,
    #[garde(contains("ß"))]
    pub f10: String,
    #[garde(contains("\u{a0}"))]
    pub f11: String,
    #[garde(contains("\u{2028}"))]
    pub f12: String,
    #[garde(contains("\u{2029}"))]
    pub f13: String,
    #[garde(contains("\u{feff}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_34 {
    #[garde(contains("￿"))]
    pub f0: String,
    #[garde(contains("퟿"))]
    pub f1: String,
    #[garde(contains(""))]
    pub f2: String,
    #[garde(contains("😀"))]
    pub f3: String,
    #[garde(contains("􏿿"))]
    pub f4: String,
    #[garde(contains("a.b"))]
    pub f5: String,
    #[garde(contains(".."))]
    pub f6: String,
    #[garde(contains("\\"))]
    pub f7: String,
    #[garde(contains("\\\\"))]
    pub f8: String,
    #[garde(contains("\\d"))]
    pub f9: String,
    #[garde(contains("^$"))]
    pub f10: String,
    #[garde(contains("^a$"))]
    pub f11: String,
    #[garde(contains("(?i)x"))]
    pub f12: String,
    #[garde(contains("[a-z]"))]
    pub f13: String,
    #[garde(contains("a{2,3}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_35 {
    #[garde(contains("x*y+z?"))]
    pub f0: String,
    #[garde(contains("$1"))]
    pub f1: String,
    #[garde(contains("(a|b)"))]
    pub f2: String,
    #[garde(contains("a\nb"))]
    pub f3: String,
    #[garde(contains("\t.\t"))]
    pub f4: String,
    #[garde(contains("  "))]
    pub f5: String,
    #[garde(contains("/*"))]
    pub f6: String,
    #[garde(contains("//"))]
    pub f7: String,
    #[garde(contains("#{}"))]
    pub f8: String,
    #[garde(contains("x-y_z"))]
    pub f9: String,
    #[garde(contains("~!@#%&=;:,<>'\"`"))]
    pub f10: String,
    #[garde(contains("\\Q.*\\E"))]
    pub f11: String,
    #[garde(contains("......................................................................"))]
    pub f12: String,
    #[garde(contains("ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab."))]
    pub f13: String,
    #[garde(contains("é.é"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_36 {
    #[garde(contains(".é"))]
    pub f0: String,
    #[garde(contains("é."))]
    pub f1: String,
    #[garde(contains("😀+😀"))]
    pub f2: String,
    #[garde(contains("\u{7f}."))]
    pub f3: String,
    #[garde(contains("A.Z"))]
    pub f4: String,
}
#[derive(JsonSchema)]
pub struct W40_37 {
    #[schemars(contains("\u{1}"))]
    pub f0: String,
    #[schemars(contains("\u{2}"))]
    pub f1: String,
    #[schemars(contains("\u{3}"))]
    pub f2: String,
    #[schemars(contains("\u{4}"))]
    pub f3: String,
    #[schemars(contains("\u{5}"))]
    pub f4: String,
    #[schemars(contains("\u{6}"))]
    pub f5: String,
    #[schemars(contains("\u{7}"))]
    pub f6: String,
    #[schemars(contains("\u{8}"))]
    pub f7: String,
    #[schemars(contains("\t"))]
    pub f8: String,
    #[schemars(contains("\n"))]
    pub f9: String,
    #[schemars(contains("\u{b}"))]
    pub f10: String,
    #[schemars(contains("\u{c}"))]
    pub f11: String,
    #[schemars(contains("\r"))]
    pub f12: String,
    #[schemars(contains("\u{e}"))]
    pub f13: String,
    #[schemars(contains("\u{f}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_38 {
    #[schemars(contains("\u{10}"))]
    pub f0: String,
    #[schemars(contains("\u{11}"))]
    pub f1: String,
    #[schemars(contains("\u{12}"))]
    pub f2: String,
    #[schemars(contains("\u{13}"))]
    pub f3: String,
    #[schemars(contains("\u{14}"))]
    pub f4: String,
    #[schemars(contains("\u{15}"))]
    pub f5: String,
    #[schemars(contains("\u{16}"))]
    pub f6: String,
    #[schemars(contains("\u{17}"))]
    pub f7: String,
    #[schemars(contains("\u{18}"))]
    pub f8: String,
    #[schemars(contains("\u{19}"))]
    pub f9: String,
    #[schemars(contains("\u{1a}"))]
    pub f10: String,
    #[schemars(contains("\u{1b}"))]
    pub f11: String,
    #[schemars(contains("\u{1c}"))]
    pub f12: String,
    #[schemars(contains("\u{1d}"))]
    pub f13: String,
    #[schemars(contains("\u{1e}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_39 {
    #[schemars(contains("\u{1f}"))]
    pub f0: String,
    #[schemars(contains(" "))]
    pub f1: String,
    #[schemars(contains("!"))]
    pub f2: String,
    #[schemars(contains("\""))]
    pub f3: String,
    #[schemars(contains("#"))]
    pub f4: String,
    #[schemars(contains("$"))]
    pub f5: String,
    #[schemars(contains("%"))]
    pub f6: String,
    #[schemars(contains("&"))]
    pub f7: String,
    #[schemars(contains("'"))]
    pub f8: String,
    #[schemars(contains("("))]
    pub f9: String,
    #[schemars(contains(")"))]
    pub f10: String,
    #[schemars(contains("*"))]
    pub f11: String,
    #[schemars(contains("+"))]
    pub f12: String,
    #[schemars(contains(","))]
    pub f13: String,
    #[schemars(contains("-"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_40 {
    #[schemars(contains("."))]
    pub f0: String,
    #[schemars(contains("/"))]
    pub f1: String,
    #[schemars(contains("0"))]
    pub f2: String,
    #[schemars(contains("1"))]
    pub f3: String,
    #[schemars(contains("2"))]
    pub f4: String,
    #[schemars(contains("3"))]
    pub f5: String,
    #[schemars(contains("4"))]
    pub f6: String,
    #[schemars(contains("5"))]
    pub f7: String,
    #[schemars(contains("6"))]
    pub f8: String,
    #[schemars(contains("7"))]
    pub f9: String,
    #[schemars(contains("8"))]
    pub f10: String,
    #[schemars(contains("9"))]
    pub f11: String,
    #[schemars(contains(":"))]
    pub f12: String,
    #[schemars(contains(";"))]
    pub f13: String,
    #[schemars(contains("<"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_41 {
    #[schemars(contains("="))]
    pub f0: String,
    #[schemars(contains(">"))]
    pub f1: String,
    #[schemars(contains("?"))]
    pub f2: String,
    #[schemars(contains("@"))]
    pub f3: String,
    #[schemars(contains("A"))]
    pub f4: String,
    #[schemars(contains("B"))]
    pub f5: String,
    #[schemars(contains("C"))]
    pub f6: String,
    #[schemars(contains("D"))]
    pub f7: String,
    #[schemars(contains("E"))]
    pub f8: String,
    #[schemars(contains("F"))]
    pub f9: String,
    #[schemars(contains("G"))]
    pub f10: String,
    #[schemars(contains("H"))]
    pub f11: String,
    #[schemars(contains("I"))]
    pub f12: String,
    #[schemars(contains("J"))]
    pub f13: String,
    #[schemars(contains("K"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_42 {
    #[schemars(contains("L"))]
    pub f0: String,
    #[schemars(contains("M"))]
    pub f1: String,
    #[schemars(contains("N"))]
    pub f2: String,
    #[schemars(contains("O"))]
    pub f3: String,
    #[schemars(contains("P"))]
    pub f4: String,
    #[schemars(contains("Q"))]
    pub f5: String,
    #[schemars(contains("R"))]
    pub f6: String,
    #[schemars(contains("S"))]
    pub f7: String,
    #[schemars(contains("T"))]
    pub f8: String,
    #[schemars(contains("U"))]
    pub f9: String,
    #[schemars(contains("V"))]
    pub f10: String,
    #[schemars(contains("W"))]
    pub f11: String,
    #[schemars(contains("X"))]
    pub f12: String,
    #[schemars(contains("Y"))]
    pub f13: String,
    #[schemars(contains("Z"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_43 {
    #[schemars(contains("["))]
    pub f0: String,
    #[schemars(contains("\\"))]
    pub f1: String,
    #[schemars(contains("]"))]
    pub f2: String,
    #[schemars(contains("^"))]
    pub f3: String,
    #[schemars(contains("_"))]
    pub f4: String,
    #[schemars(contains("`"))]
    pub f5: String,
    #[schemars(contains("a"))]
    pub f6: String,
    #[schemars(contains("b"))]
    pub f7: String,
    #[schemars(contains("c"))]
    pub f8: String,
    #[schemars(contains("d"))]
    pub f9: String,
    #[schemars(contains("e"))]
    pub f10: String,
    #[schemars(contains("f"))]
    pub f11: String,
    #[schemars(contains("g"))]
    pub f12: String,
    #[schemars(contains("h"))]
    pub f13: String,
    #[schemars(contains("i"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_44 {
    #[schemars(contains("j"))]
    pub f0: String,
    #[schemars(contains("k"))]
    pub f1: String,
    #[schemars(contains("l"))]
    pub f2: String,
    #[schemars(contains("m"))]
    pub f3: String,
    #[schemars(contains("n"))]
    pub f4: String,
    #[schemars(contains("o"))]
    pub f5: String,
    #[schemars(contains("p"))]
    pub f6: String,
    #[schemars(contains("q"))]
    pub f7: String,
    #[schemars(contains("r"))]
    pub f8: String,
    #[schemars(contains("s"))]
    pub f9: String,
    #[schemars(contains("t"))]
    pub f10: String,
    #[schemars(contains("u"))]
    pub f11: String,
    #[schemars(contains("v"))]
    pub f12: String,
    #[schemars(contains("w"))]
    pub f13: String,
    #[schemars(contains("x"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_45 {
    #[schemars(contains("y"))]
    pub f0: String,
    #[schemars(contains("z"))]
    pub f1: String,
    #[schemars(contains("{"))]
    pub f2: String,
    #[schemars(contains("|"))]
    pub f3: String,
    #[schemars(contains("}"))]
    pub f4: String,
    #[schemars(contains("~"))]
    pub f5: String,
    #[schemars(contains("\u{7f}"))]
    pub f6: String,
    #[schemars(contains(""))]
    pub f7: String,
    #[schemars(contains("\u{0}"))]
    pub f8: String,
    #[schemars(contains("é"))]
    pub f9: String,
    #[schemars(contains("ß"))]
    pub f10: String,
    #[schemars(contains("\u{a0}"))]
    pub f11: String,
    #[schemars(contains("\u{2028}"))]
    pub f12: String,
    #[schemars(contains("\u{2029}"))]
    pub f13: String,
    #[schemars(contains("\u{feff}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_46 {
    #[schemars(contains("￿"))]
    pub f0: String,
    #[schemars(contains("퟿"))]
    pub f1: String,
    #[schemars(contains(""))]
    pub f2: String,
    #[schemars(contains("😀"))]
    pub f3: String,
    #[schemars(contains("􏿿"))]
    pub f4: String,
    #[schemars(contains("a.b"))]
    pub f5: String,
    #[schemars(contains(".."))]
    pub f6: String,
    #[schemars(contains("\\"))]
    pub f7: String,
    #[schemars(contains("\\\\"))]
    pub f8: String,
    #[schemars(contains("\\d"))]
    pub f9: String,
    #[schemars(contains("^$"))]
    pub f10: String,
    #[schemars(contains("^a$"))]
    pub f11: String,
    #[schemars(contains("(?i)x"))]
    pub f12: String,
    #[schemars(contains("[a-z]"))]
    pub f13: String,
    #[schemars(contains("a{2,3}"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_47 {
    #[schemars(contains("x*y+z?"))]
    pub f0: String,
    #[schemars(contains("$1"))]
    pub f1: String,
    #[schemars(contains("(a|b)"))]
    pub f2: String,
    #[schemars(contains("a\nb"))]
    pub f3: String,
    #[schemars(contains("\t.\t"))]
    pub f4: String,
    #[schemars(contains("  "))]
    pub f5: String,
    #[schemars(contains("/*"))]
    pub f6: String,
    #[schemars(contains("//"))]
    pub f7: String,
    #[schemars(contains("#{}"))]
    pub f8: String,
    #[schemars(contains("x-y_z"))]
    pub f9: String,
    #[schemars(contains("~!@#%&=;:,<>'\"`"))]
    pub f10: String,
    #[schemars(contains("\\Q.*\\E"))]
    pub f11: String,
    #[schemars(contains("......................................................................"))]
    pub f12: String,
    #[schemars(contains("ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab.ab."))]
    pub f13: String,
    #[schemars(contains("é.é"))]
    pub f14: String,
}
#[derive(JsonSchema)]
pub struct W40_48 {
    #[schemars(contains(".é"))]
    pub f0: String,
    #[schemars(contains("é."))]
    pub f1: String,
    #[schemars(contains("😀+😀"))]
    pub f2: String,
    #[schemars(contains("\u{7f}."))]
    pub f3: String,
    #[schemars(contains("A.Z"))]
    pub f4: String,
}
#[derive(JsonSchema)]
pub struct W40_49 {
    #[schemars(contains(concat!("a.", "b*")))]
    pub a: String,
    #[schemars(contains(TXT_C))]
    pub b: String,
    #[schemars(contains("q|r"))]
    pub c: Option<String>,
    #[schemars(inner(contains("s.t")))]
    pub d: Vec<String>,
}
#[derive(JsonSchema)]
pub struct W40_50(
    #[schemars(contains("u.v"))]
    pub String,
);
#[derive(JsonSchema)]
pub enum W40_51 {
    N(
        #[schemars(contains("w.x"))]
        String,
    ),
    S {
        #[schemars(contains("y.z"))]
        f: String,
    },
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W40_52(
    #[schemars(contains("t.t"))]
    pub String,
);
#[derive(JsonSchema)]
pub struct W45_2 {
    #[serde(flatten)]
    pub m0: M0,
    #[serde(flatten)]
    pub m1: M1,
}
#[derive(JsonSchema)]
pub struct W45_3 {
    #[serde(flatten)]
    pub m0: M0,
    #[serde(flatten)]
    pub m1: M1,
    #[serde(flatten)]
    pub m2: M2,
}
#[derive(JsonSchema)]
pub struct W45_p {
    pub a: A,
    #[serde(flatten)]
    pub m0: M0,
    pub b: Option<B>,
    #[serde(flatten)]
    pub m1: M1,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W45_d {
    pub a: A,
    #[serde(flatten)]
    pub m0: M0,
}
#[derive(JsonSchema)]
pub enum W45_e {
    V {
        #[serde(flatten)]
        m0: M0,
        #[serde(flatten)]
        m1: M1,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W45_i {
    V {
        #[serde(flatten)]
        m0: M0,
        #[serde(flatten)]
        m1: M1,
    },
}
#[derive(JsonSchema)]
pub enum W31_274 {
    Va {
        #[serde(rename = "")]
        fa: A,
    },
    Vb {
        #[serde(rename = "")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_275 {
    #[serde(rename = "")]
    Va,
    #[serde(rename = "2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_276 {
    #[serde(rename = "")]
    Va {

    },
    #[serde(rename = "2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_277 {
    #[serde(rename = "")]
    Va(
        Deny1,
    ),
    #[serde(rename = "2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_278 {
    Va {
        #[serde(rename = "")]
        fa: A,
    },
    Vb {
        #[serde(rename = "")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_279 {
    #[serde(rename = "")]
    Va,
    #[serde(rename = "2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_280 {
    #[serde(rename = "")]
    Va {

    },
    #[serde(rename = "2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_281 {
    #[serde(rename = "")]
    Va(
        Deny1,
    ),
    #[serde(rename = "2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_282 {
    Va {
        #[serde(rename = "")]
        fa: A,
    },
    Vb {
        #[serde(rename = "")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_283 {
    #[serde(rename = "")]
    Va,
    #[serde(rename = "2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_284 {
    #[serde(rename = "")]
    Va {

    },
    #[serde(rename = "2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_285 {
    #[serde(rename = "")]
    Va(
        Deny1,
    ),
    #[serde(rename = "2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_286 {
    Va {
        #[serde(rename = "")]
        fa: A,
    },
    Vb {
        #[serde(rename = "")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_287 {
    #[serde(rename = "")]
    Va,
    #[serde(rename = "2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_288 {
    #[serde(rename = "")]
    Va {

    },
    #[serde(rename = "2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_289 {
    #[serde(rename = "")]
    Va(
        Deny1,
    ),
    #[serde(rename = "2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_290 {
    Va {
        #[serde(rename = "")]
        fa: A,
    },
    Vb {
        #[serde(rename = "")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_291 {
    #[serde(rename = "")]
    Va,
    #[serde(rename = "2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_292 {
    #[serde(rename = "")]
    Va {

    },
    #[serde(rename = "2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_293 {
    #[serde(rename = "")]
    Va(
        Deny1,
    ),
    #[serde(rename = "2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_294 {
    Va {
        #[serde(rename = "")]
        fa: A,
    },
    Vb {
        #[serde(rename = "")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_295 {
    #[serde(rename = "")]
    Va,
    #[serde(rename = "2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_296 {
    #[serde(rename = "")]
    Va {

    },
    #[serde(rename = "2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_297 {
    #[serde(rename = "")]
    Va(
        Deny1,
    ),
    #[serde(rename = "2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_298 {
    Va {
        #[serde(rename = "")]
        fa: A,
    },
    Vb {
        #[serde(rename = "")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_299 {
    #[serde(rename = "")]
    Va,
    #[serde(rename = "2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_300 {
    #[serde(rename = "")]
    Va {

    },
    #[serde(rename = "2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_301 {
    #[serde(rename = "")]
    Va(
        Deny1,
    ),
    #[serde(rename = "2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_302 {
    Va {
        #[serde(rename = "")]
        fa: A,
    },
    Vb {
        #[serde(rename = "")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_303 {
    #[serde(rename = "")]
    Va,
    #[serde(rename = "2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_304 {
    #[serde(rename = "")]
    Va {

    },
    #[serde(rename = "2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_305 {
    #[serde(rename = "")]
    Va(
        Deny1,
    ),
    #[serde(rename = "2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_306 {
    #[serde(rename = "")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "x")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_307 {
    #[serde(rename = "")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "x")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_308 {
    #[serde(rename(serialize = ""))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_309 {
    #[serde(rename(deserialize = ""))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub enum W31_310 {
    Va {
        #[serde(rename = "tg")]
        fa: A,
    },
    Vb {
        #[serde(rename = "tg")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "tg")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_311 {
    #[serde(rename = "tg")]
    Va,
    #[serde(rename = "tg2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_312 {
    #[serde(rename = "tg")]
    Va {

    },
    #[serde(rename = "tg2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_313 {
    #[serde(rename = "tg")]
    Va(
        Deny1,
    ),
    #[serde(rename = "tg2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "tg3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_314 {
    Va {
        #[serde(rename = "tg")]
        fa: A,
    },
    Vb {
        #[serde(rename = "tg")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "tg")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_315 {
    #[serde(rename = "tg")]
    Va,
    #[serde(rename = "tg2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_316 {
    #[serde(rename = "tg")]
    Va {

    },
    #[serde(rename = "tg2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_317 {
    #[serde(rename = "tg")]
    Va(
        Deny1,
    ),
    #[serde(rename = "tg2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "tg3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_318 {
    Va {
        fa: A,
    },
    Vb {
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_319 {
    #[serde(rename = "tg")]
    Va,
    #[serde(rename = "tg2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_320 {
    #[serde(rename = "tg")]
    Va {

    },
    #[serde(rename = "tg2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_321 {
    #[serde(rename = "tg")]
    Va(
        Deny1,
    ),
    #[serde(rename = "tg2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "tg3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_322 {
    Va {
        fa: A,
    },
    Vb {
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_323 {
    #[serde(rename = "tg")]
    Va,
    #[serde(rename = "tg2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_324 {
    #[serde(rename = "tg")]
    Va {

    },
    #[serde(rename = "tg2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_325 {
    #[serde(rename = "tg")]
    Va(
        Deny1,
    ),
    #[serde(rename = "tg2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "tg3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_326 {
    Va {
        #[serde(rename = "tg")]
        fa: A,
    },
    Vb {
        #[serde(rename = "tg")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "tg")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_327 {
    #[serde(rename = "tg")]
    Va,
    #[serde(rename = "tg2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_328 {
    #[serde(rename = "tg")]
    Va {

    },
    #[serde(rename = "tg2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_329 {
    #[serde(rename = "tg")]
    Va(
        Deny1,
    ),
    #[serde(rename = "tg2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "tg3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_330 {
    Va {
        #[serde(rename = "tg")]
        fa: A,
    },
    Vb {
        #[serde(rename = "tg")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "tg")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_331 {
    #[serde(rename = "tg")]
    Va,
    #[serde(rename = "tg2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_332 {
    #[serde(rename = "tg")]
    Va {

    },
    #[serde(rename = "tg2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_333 {
    #[serde(rename = "tg")]
    Va(
        Deny1,
    ),
    #[serde(rename = "tg2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "tg3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_334 {
    Va {
        #[serde(rename = "tg")]
        fa: A,
    },
    Vb {
        #[serde(rename = "tg")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "tg")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_335 {
    #[serde(rename = "tg")]
    Va,
    #[serde(rename = "tg2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_336 {
    #[serde(rename = "tg")]
    Va {

    },
    #[serde(rename = "tg2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_337 {
    #[serde(rename = "tg")]
    Va(
        Deny1,
    ),
    #[serde(rename = "tg2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "tg3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_338 {
    Va {
        #[serde(rename = "tg")]
        fa: A,
    },
    Vb {
        #[serde(rename = "tg")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "tg")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_339 {
    #[serde(rename = "tg")]
    Va,
    #[serde(rename = "tg2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_340 {
    #[serde(rename = "tg")]
    Va {

    },
    #[serde(rename = "tg2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_341 {
    #[serde(rename = "tg")]
    Va(
        Deny1,
    ),
    #[serde(rename = "tg2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "tg3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_342 {
    #[serde(rename = "tg")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "tgx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_343 {
    #[serde(rename = "tg")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "tgx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_344 {
    #[serde(rename(serialize = "tg"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "tg1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_345 {
    #[serde(rename(deserialize = "tg"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "tg1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W33_518 {
    #[serde(rename = "tg")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tgk")]
#[serde(content = "tg")]
#[serde(deny_unknown_fields)]
pub enum W33_519 {
    #[serde(rename = "tg")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "tgk")]
pub enum W33_520 {
    #[serde(rename = "tg")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W33_521 {
    #[serde(rename = "tgq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tgk")]
#[serde(content = "tg")]
#[serde(deny_unknown_fields)]
pub enum W33_522 {
    #[serde(rename = "tgq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "tgk")]
pub enum W33_523 {
    #[serde(rename = "tgq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W33_524 {
    #[serde(rename = "tg")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tgk")]
#[serde(content = "tg")]
#[serde(deny_unknown_fields)]
pub enum W33_525 {
    #[serde(rename = "tg")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "tgk")]
pub enum W33_526 {
    #[serde(rename = "tg")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_346 {
    Va {
        #[serde(rename = "ct")]
        fa: A,
    },
    Vb {
        #[serde(rename = "ct")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "ct")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_347 {
    #[serde(rename = "ct")]
    Va,
    #[serde(rename = "ct2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_348 {
    #[serde(rename = "ct")]
    Va {

    },
    #[serde(rename = "ct2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_349 {
    #[serde(rename = "ct")]
    Va(
        Deny1,
    ),
    #[serde(rename = "ct2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "ct3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_350 {
    Va {
        #[serde(rename = "ct")]
        fa: A,
    },
    Vb {
        #[serde(rename = "ct")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "ct")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_351 {
    #[serde(rename = "ct")]
    Va,
    #[serde(rename = "ct2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_352 {
    #[serde(rename = "ct")]
    Va {

    },
    #[serde(rename = "ct2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_353 {
    #[serde(rename = "ct")]
    Va(
        Deny1,
    ),
    #[serde(rename = "ct2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "ct3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_354 {
    Va {
        #[serde(rename = "ct")]
        fa: A,
    },
    Vb {
        #[serde(rename = "ct")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "ct")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_355 {
    #[serde(rename = "ct")]
    Va,
    #[serde(rename = "ct2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_356 {
    #[serde(rename = "ct")]
    Va {

    },
    #[serde(rename = "ct2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_357 {
    #[serde(rename = "ct")]
    Va(
        Deny1,
    ),
    #[serde(rename = "ct2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "ct3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_358 {
    Va {
        #[serde(rename = "ct")]
        fa: A,
    },
    Vb {
        #[serde(rename = "ct")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "ct")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_359 {
    #[serde(rename = "ct")]
    Va,
    #[serde(rename = "ct2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_360 {
    #[serde(rename = "ct")]
    Va {

    },
    #[serde(rename = "ct2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_361 {
    #[serde(rename = "ct")]
    Va(
        Deny1,
    ),
    #[serde(rename = "ct2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "ct3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_362 {
    Va {
        #[serde(rename = "ct")]
        fa: A,
    },
    Vb {
        #[serde(rename = "ct")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "ct")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_363 {
    #[serde(rename = "ct")]
    Va,
    #[serde(rename = "ct2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_364 {
    #[serde(rename = "ct")]
    Va {

    },
    #[serde(rename = "ct2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_365 {
    #[serde(rename = "ct")]
    Va(
        Deny1,
    ),
    #[serde(rename = "ct2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "ct3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_366 {
    Va {
        #[serde(rename = "ct")]
        fa: A,
    },
    Vb {
        #[serde(rename = "ct")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "ct")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_367 {
    #[serde(rename = "ct")]
    Va,
    #[serde(rename = "ct2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_368 {
    #[serde(rename = "ct")]
    Va {

    },
    #[serde(rename = "ct2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_369 {
    #[serde(rename = "ct")]
    Va(
        Deny1,
    ),
    #[serde(rename = "ct2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "ct3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_370 {
    Va {
        #[serde(rename = "ct")]
        fa: A,
    },
    Vb {
        #[serde(rename = "ct")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "ct")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_371 {
    #[serde(rename = "ct")]
    Va,
    #[serde(rename = "ct2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_372 {
    #[serde(rename = "ct")]
    Va {

    },
    #[serde(rename = "ct2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_373 {
    #[serde(rename = "ct")]
    Va(
        Deny1,
    ),
    #[serde(rename = "ct2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "ct3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_374 {
    Va {
        #[serde(rename = "ct")]
        fa: A,
    },
    Vb {
        #[serde(rename = "ct")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "ct")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_375 {
    #[serde(rename = "ct")]
    Va,
    #[serde(rename = "ct2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_376 {
    #[serde(rename = "ct")]
    Va {

    },
    #[serde(rename = "ct2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_377 {
    #[serde(rename = "ct")]
    Va(
        Deny1,
    ),
    #[serde(rename = "ct2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "ct3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_378 {
    #[serde(rename = "ct")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "ctx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_379 {
    #[serde(rename = "ct")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "ctx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_380 {
    #[serde(rename(serialize = "ct"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "ct1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_381 {
    #[serde(rename(deserialize = "ct"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "ct1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "ct")]
#[serde(deny_unknown_fields)]
pub enum W33_527 {
    #[serde(rename = "ct")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "ctk")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W33_528 {
    #[serde(rename = "ct")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "ct")]
#[serde(content = "ctk")]
pub enum W33_529 {
    #[serde(rename = "ct")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "ct")]
#[serde(deny_unknown_fields)]
pub enum W33_530 {
    #[serde(rename = "ctq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "ctk")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W33_531 {
    #[serde(rename = "ctq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "ct")]
#[serde(content = "ctk")]
pub enum W33_532 {
    #[serde(rename = "ctq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "ct")]
#[serde(deny_unknown_fields)]
pub enum W33_533 {
    #[serde(rename = "ct")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "ctk")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W33_534 {
    #[serde(rename = "ct")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "ct")]
#[serde(content = "ctk")]
pub enum W33_535 {
    #[serde(rename = "ct")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_382 {
    Va {
        #[serde(rename = "type")]
        fa: A,
    },
    Vb {
        #[serde(rename = "type")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "type")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_383 {
    #[serde(rename = "type")]
    Va,
    #[serde(rename = "type2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_384 {
    #[serde(rename = "type")]
    Va {

    },
    #[serde(rename = "type2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_385 {
    #[serde(rename = "type")]
    Va(
        Deny1,
    ),
    #[serde(rename = "type2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "type3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_386 {
    Va {
        #[serde(rename = "type")]
        fa: A,
    },
    Vb {
        #[serde(rename = "type")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "type")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_387 {
    #[serde(rename = "type")]
    Va,
    #[serde(rename = "type2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_388 {
    #[serde(rename = "type")]
    Va {

    },
    #[serde(rename = "type2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_389 {
    #[serde(rename = "type")]
    Va(
        Deny1,
    ),
    #[serde(rename = "type2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "type3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_390 {
    Va {
        #[serde(rename = "type")]
        fa: A,
    },
    Vb {
        #[serde(rename = "type")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "type")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_391 {
    #[serde(rename = "type")]
    Va,
    #[serde(rename = "type2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_392 {
    #[serde(rename = "type")]
    Va {

    },
    #[serde(rename = "type2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_393 {
    #[serde(rename = "type")]
    Va(
        Deny1,
    ),
    #[serde(rename = "type2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "type3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_394 {
    Va {
        #[serde(rename = "type")]
        fa: A,
    },
    Vb {
        #[serde(rename = "type")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "type")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_395 {
    #[serde(rename = "type")]
    Va,
    #[serde(rename = "type2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_396 {
    #[serde(rename = "type")]
    Va {

    },
    #[serde(rename = "type2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_397 {
    #[serde(rename = "type")]
    Va(
        Deny1,
    ),
    #[serde(rename = "type2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "type3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_398 {
    Va {
        #[serde(rename = "type")]
        fa: A,
    },
    Vb {
        #[serde(rename = "type")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "type")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_399 {
    #[serde(rename = "type")]
    Va,
    #[serde(rename = "type2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_400 {
    #[serde(rename = "type")]
    Va {

    },
    #[serde(rename = "type2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_401 {
    #[serde(rename = "type")]
    Va(
        Deny1,
    ),
    #[serde(rename = "type2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "type3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_402 {
    Va {
        #[serde(rename = "type")]
        fa: A,
    },
    Vb {
        #[serde(rename = "type")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "type")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_403 {
    #[serde(rename = "type")]
    Va,
    #[serde(rename = "type2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_404 {
    #[serde(rename = "type")]
    Va {

    },
    #[serde(rename = "type2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_405 {
    #[serde(rename = "type")]
    Va(
        Deny1,
    ),
    #[serde(rename = "type2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "type3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_406 {
    Va {
        #[serde(rename = "type")]
        fa: A,
    },
    Vb {
        #[serde(rename = "type")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "type")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_407 {
    #[serde(rename = "type")]
    Va,
    #[serde(rename = "type2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_408 {
    #[serde(rename = "type")]
    Va {

    },
    #[serde(rename = "type2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_409 {
    #[serde(rename = "type")]
    Va(
        Deny1,
    ),
    #[serde(rename = "type2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "type3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_410 {
    Va {
        #[serde(rename = "type")]
        fa: A,
    },
    Vb {
        #[serde(rename = "type")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "type")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_411 {
    #[serde(rename = "type")]
    Va,
    #[serde(rename = "type2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_412 {
    #[serde(rename = "type")]
    Va {

    },
    #[serde(rename = "type2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_413 {
    #[serde(rename = "type")]
    Va(
        Deny1,
    ),
    #[serde(rename = "type2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "type3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_414 {
    #[serde(rename = "type")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "typex")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_415 {
    #[serde(rename = "type")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "typex")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_416 {
    #[serde(rename(serialize = "type"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "type1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_417 {
    #[serde(rename(deserialize = "type"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "type1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "type")]
#[serde(deny_unknown_fields)]
pub enum W33_536 {
    #[serde(rename = "type")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "typek")]
#[serde(content = "type")]
#[serde(deny_unknown_fields)]
pub enum W33_537 {
    #[serde(rename = "type")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "type")]
#[serde(content = "typek")]
pub enum W33_538 {
    #[serde(rename = "type")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "type")]
#[serde(deny_unknown_fields)]
pub enum W33_539 {
    #[serde(rename = "typeq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "typek")]
#[serde(content = "type")]
#[serde(deny_unknown_fields)]
pub enum W33_540 {
    #[serde(rename = "typeq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "type")]
#[serde(content = "typek")]
pub enum W33_541 {
    #[serde(rename = "typeq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "type")]
#[serde(deny_unknown_fields)]
pub enum W33_542 {
    #[serde(rename = "type")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "typek")]
#[serde(content = "type")]
#[serde(deny_unknown_fields)]
pub enum W33_543 {
    #[serde(rename = "type")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "type")]
#[serde(content = "typek")]
pub enum W33_544 {
    #[serde(rename = "type")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_418 {
    Va {
        #[serde(rename = "required")]
        fa: A,
    },
    Vb {
        #[serde(rename = "required")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "required")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_419 {
    #[serde(rename = "required")]
    Va,
    #[serde(rename = "required2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_420 {
    #[serde(rename = "required")]
    Va {

    },
    #[serde(rename = "required2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_421 {
    #[serde(rename = "required")]
    Va(
        Deny1,
    ),
    #[serde(rename = "required2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "required3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_422 {
    Va {
        #[serde(rename = "required")]
        fa: A,
    },
    Vb {
        #[serde(rename = "required")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "required")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_423 {
    #[serde(rename = "required")]
    Va,
    #[serde(rename = "required2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_424 {
    #[serde(rename = "required")]
    Va {

    },
    #[serde(rename = "required2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_425 {
    #[serde(rename = "required")]
    Va(
        Deny1,
    ),
    #[serde(rename = "required2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "required3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_426 {
    Va {
        #[serde(rename = "required")]
        fa: A,
    },
    Vb {
        #[serde(rename = "required")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "required")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_427 {
    #[serde(rename = "required")]
    Va,
    #[serde(rename = "required2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_428 {
    #[serde(rename = "required")]
    Va {

    },
    #[serde(rename = "required2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_429 {
    #[serde(rename = "required")]
    Va(
        Deny1,
    ),
    #[serde(rename = "required2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "required3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_430 {
    Va {
        #[serde(rename = "required")]
        fa: A,
    },
    Vb {
        #[serde(rename = "required")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "required")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_431 {
    #[serde(rename = "required")]
    Va,
    #[serde(rename = "required2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_432 {
    #[serde(rename = "required")]
    Va {

    },
    #[serde(rename = "required2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_433 {
    #[serde(rename = "required")]
    Va(
        Deny1,
    ),
    #[serde(rename = "required2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "required3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_434 {
    Va {
        #[serde(rename = "required")]
        fa: A,
    },
    Vb {
        #[serde(rename = "required")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "required")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_435 {
    #[serde(rename = "required")]
    Va,
    #[serde(rename = "required2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_436 {
    #[serde(rename = "required")]
    Va {

    },
    #[serde(rename = "required2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_437 {
    #[serde(rename = "required")]
    Va(
        Deny1,
    ),
    #[serde(rename = "required2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "required3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_438 {
    Va {
        #[serde(rename = "required")]
        fa: A,
    },
    Vb {
        #[serde(rename = "required")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "required")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_439 {
    #[serde(rename = "required")]
    Va,
    #[serde(rename = "required2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_440 {
    #[serde(rename = "required")]
    Va {

    },
    #[serde(rename = "required2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_441 {
    #[serde(rename = "required")]
    Va(
        Deny1,
    ),
    #[serde(rename = "required2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "required3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_442 {
    Va {
        #[serde(rename = "required")]
        fa: A,
    },
    Vb {
        #[serde(rename = "required")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "required")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_443 {
    #[serde(rename = "required")]
    Va,
    #[serde(rename = "required2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_444 {
    #[serde(rename = "required")]
    Va {

    },
    #[serde(rename = "required2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_445 {
    #[serde(rename = "required")]
    Va(
        Deny1,
    ),
    #[serde(rename = "required2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "required3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_446 {
    Va {
        #[serde(rename = "required")]
        fa: A,
    },
    Vb {
        #[serde(rename = "required")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "required")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_447 {
    #[serde(rename = "required")]
    Va,
    #[serde(rename = "required2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_448 {
    #[serde(rename = "required")]
    Va {

    },
    #[serde(rename = "required2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_449 {
    #[serde(rename = "required")]
    Va(
        Deny1,
    ),
    #[serde(rename = "required2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "required3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_450 {
    #[serde(rename = "required")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "requiredx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_451 {
    #[serde(rename = "required")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "requiredx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_452 {
    #[serde(rename(serialize = "required"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "required1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_453 {
    #[serde(rename(deserialize = "required"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "required1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "required")]
#[serde(deny_unknown_fields)]
pub enum W33_545 {
    #[serde(rename = "required")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "requiredk")]
#[serde(content = "required")]
#[serde(deny_unknown_fields)]
pub enum W33_546 {
    #[serde(rename = "required")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "required")]
#[serde(content = "requiredk")]
pub enum W33_547 {
    #[serde(rename = "required")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "required")]
#[serde(deny_unknown_fields)]
pub enum W33_548 {
    #[serde(rename = "requiredq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "requiredk")]
#[serde(content = "required")]
#[serde(deny_unknown_fields)]
pub enum W33_549 {
    #[serde(rename = "requiredq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "required")]
#[serde(content = "requiredk")]
pub enum W33_550 {
    #[serde(rename = "requiredq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "required")]
#[serde(deny_unknown_fields)]
pub enum W33_551 {
    #[serde(rename = "required")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "requiredk")]
#[serde(content = "required")]
#[serde(deny_unknown_fields)]
pub enum W33_552 {
    #[serde(rename = "required")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "required")]
#[serde(content = "requiredk")]
pub enum W33_553 {
    #[serde(rename = "required")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_454 {
    Va {
        #[serde(rename = "properties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "properties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "properties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_455 {
    #[serde(rename = "properties")]
    Va,
    #[serde(rename = "properties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_456 {
    #[serde(rename = "properties")]
    Va {

    },
    #[serde(rename = "properties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_457 {
    #[serde(rename = "properties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "properties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "properties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_458 {
    Va {
        #[serde(rename = "properties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "properties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "properties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_459 {
    #[serde(rename = "properties")]
    Va,
    #[serde(rename = "properties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_460 {
    #[serde(rename = "properties")]
    Va {

    },
    #[serde(rename = "properties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_461 {
    #[serde(rename = "properties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "properties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "properties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_462 {
    Va {
        #[serde(rename = "properties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "properties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "properties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_463 {
    #[serde(rename = "properties")]
    Va,
    #[serde(rename = "properties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_464 {
    #[serde(rename = "properties")]
    Va {

    },
    #[serde(rename = "properties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_465 {
    #[serde(rename = "properties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "properties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "properties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_466 {
    Va {
        #[serde(rename = "properties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "properties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "properties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_467 {
    #[serde(rename = "properties")]
    Va,
    #[serde(rename = "properties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_468 {
    #[serde(rename = "properties")]
    Va {

    },
    #[serde(rename = "properties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_469 {
    #[serde(rename = "properties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "properties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "properties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_470 {
    Va {
        #[serde(rename = "properties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "properties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "properties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_471 {
    #[serde(rename = "properties")]
    Va,
    #[serde(rename = "properties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_472 {
    #[serde(rename = "properties")]
    Va {

    },
    #[serde(rename = "properties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_473 {
    #[serde(rename = "properties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "properties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "properties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_474 {
    Va {
        #[serde(rename = "properties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "properties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "properties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_475 {
    #[serde(rename = "properties")]
    Va,
    #[serde(rename = "properties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_476 {
    #[serde(rename = "properties")]
    Va {

    },
    #[serde(rename = "properties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_477 {
    #[serde(rename = "properties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "properties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "properties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_478 {
    Va {
        #[serde(rename = "properties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "properties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "properties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_479 {
    #[serde(rename = "properties")]
    Va,
    #[serde(rename = "properties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_480 {
    #[serde(rename = "properties")]
    Va {

    },
    #[serde(rename = "properties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_481 {
    #[serde(rename = "properties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "properties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "properties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_482 {
    Va {
        #[serde(rename = "properties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "properties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "properties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_483 {
    #[serde(rename = "properties")]
    Va,
    #[serde(rename = "properties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_484 {
    #[serde(rename = "properties")]
    Va {

    },
    #[serde(rename = "properties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_485 {
    #[serde(rename = "properties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "properties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "properties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_486 {
    #[serde(rename = "properties")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "propertiesx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_487 {
    #[serde(rename = "properties")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "propertiesx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_488 {
    #[serde(rename(serialize = "properties"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "properties1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_489 {
    #[serde(rename(deserialize = "properties"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "properties1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "properties")]
#[serde(deny_unknown_fields)]
pub enum W33_554 {
    #[serde(rename = "properties")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "propertiesk")]
#[serde(content = "properties")]
#[serde(deny_unknown_fields)]
pub enum W33_555 {
    #[serde(rename = "properties")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "properties")]
#[serde(content = "propertiesk")]
pub enum W33_556 {
    #[serde(rename = "properties")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "properties")]
#[serde(deny_unknown_fields)]
pub enum W33_557 {
    #[serde(rename = "propertiesq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "propertiesk")]
#[serde(content = "properties")]
#[serde(deny_unknown_fields)]
pub enum W33_558 {
    #[serde(rename = "propertiesq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "properties")]
#[serde(content = "propertiesk")]
pub enum W33_559 {
    #[serde(rename = "propertiesq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "properties")]
#[serde(deny_unknown_fields)]
pub enum W33_560 {
    #[serde(rename = "properties")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "propertiesk")]
#[serde(content = "properties")]
#[serde(deny_unknown_fields)]
pub enum W33_561 {
    #[serde(rename = "properties")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "properties")]
#[serde(content = "propertiesk")]
pub enum W33_562 {
    #[serde(rename = "properties")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_490 {
    Va {
        #[serde(rename = "$ref")]
        fa: A,
    },
    Vb {
        #[serde(rename = "$ref")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "$ref")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_491 {
    #[serde(rename = "$ref")]
    Va,
    #[serde(rename = "$ref2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_492 {
    #[serde(rename = "$ref")]
    Va {

    },
    #[serde(rename = "$ref2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_493 {
    #[serde(rename = "$ref")]
    Va(
        Deny1,
    ),
    #[serde(rename = "$ref2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "$ref3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_494 {
    Va {
        #[serde(rename = "$ref")]
        fa: A,
    },
    Vb {
        #[serde(rename = "$ref")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "$ref")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_495 {
    #[serde(rename = "$ref")]
    Va,
    #[serde(rename = "$ref2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_496 {
    #[serde(rename = "$ref")]
    Va {

    },
    #[serde(rename = "$ref2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_497 {
    #[serde(rename = "$ref")]
    Va(
        Deny1,
    ),
    #[serde(rename = "$ref2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "$ref3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_498 {
    Va {
        #[serde(rename = "$ref")]
        fa: A,
    },
    Vb {
        #[serde(rename = "$ref")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "$ref")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_499 {
    #[serde(rename = "$ref")]
    Va,
    #[serde(rename = "$ref2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_500 {
    #[serde(rename = "$ref")]
    Va {

    },
    #[serde(rename = "$ref2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_501 {
    #[serde(rename = "$ref")]
    Va(
        Deny1,
    ),
    #[serde(rename = "$ref2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "$ref3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_502 {
    Va {
        #[serde(rename = "$ref")]
        fa: A,
    },
    Vb {
        #[serde(rename = "$ref")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "$ref")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_503 {
    #[serde(rename = "$ref")]
    Va,
    #[serde(rename = "$ref2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_504 {
    #[serde(rename = "$ref")]
    Va {

    },
    #[serde(rename = "$ref2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_505 {
    #[serde(rename = "$ref")]
    Va(
        Deny1,
    ),
    #[serde(rename = "$ref2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "$ref3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_506 {
    Va {
        #[serde(rename = "$ref")]
        fa: A,
    },
    Vb {
        #[serde(rename = "$ref")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "$ref")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_507 {
    #[serde(rename = "$ref")]
    Va,
    #[serde(rename = "$ref2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_508 {
    #[serde(rename = "$ref")]
    Va {

    },
    #[serde(rename = "$ref2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_509 {
    #[serde(rename = "$ref")]
    Va(
        Deny1,
    ),
    #[serde(rename = "$ref2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "$ref3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_510 {
    Va {
        #[serde(rename = "$ref")]
        fa: A,
    },
    Vb {
        #[serde(rename = "$ref")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "$ref")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_511 {
    #[serde(rename = "$ref")]
    Va,
    #[serde(rename = "$ref2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_512 {
    #[serde(rename = "$ref")]
    Va {

    },
    #[serde(rename = "$ref2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_513 {
    #[serde(rename = "$ref")]
    Va(
        Deny1,
    ),
    #[serde(rename = "$ref2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "$ref3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_514 {
    Va {
        #[serde(rename = "$ref")]
        fa: A,
    },
    Vb {
        #[serde(rename = "$ref")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "$ref")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_515 {
    #[serde(rename = "$ref")]
    Va,
    #[serde(rename = "$ref2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_516 {
    #[serde(rename = "$ref")]
    Va {

    },
    #[serde(rename = "$ref2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_517 {
    #[serde(rename = "$ref")]
    Va(
        Deny1,
    ),
    #[serde(rename = "$ref2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "$ref3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_518 {
    Va {
        #[serde(rename = "$ref")]
        fa: A,
    },
    Vb {
        #[serde(rename = "$ref")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "$ref")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_519 {
    #[serde(rename = "$ref")]
    Va,
    #[serde(rename = "$ref2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_520 {
    #[serde(rename = "$ref")]
    Va {

    },
    #[serde(rename = "$ref2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_521 {
    #[serde(rename = "$ref")]
    Va(
        Deny1,
    ),
    #[serde(rename = "$ref2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "$ref3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_522 {
    #[serde(rename = "$ref")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "$refx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_523 {
    #[serde(rename = "$ref")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "$refx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_524 {
    #[serde(rename(serialize = "$ref"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "$ref1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_525 {
    #[serde(rename(deserialize = "$ref"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "$ref1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "$ref")]
#[serde(deny_unknown_fields)]
pub enum W33_563 {
    #[serde(rename = "$ref")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "$refk")]
#[serde(content = "$ref")]
#[serde(deny_unknown_fields)]
pub enum W33_564 {
    #[serde(rename = "$ref")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "$ref")]
#[serde(content = "$refk")]
pub enum W33_565 {
    #[serde(rename = "$ref")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "$ref")]
#[serde(deny_unknown_fields)]
pub enum W33_566 {
    #[serde(rename = "$refq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "$refk")]
#[serde(content = "$ref")]
#[serde(deny_unknown_fields)]
pub enum W33_567 {
    #[serde(rename = "$refq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "$ref")]
#[serde(content = "$refk")]
pub enum W33_568 {
    #[serde(rename = "$refq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "$ref")]
#[serde(deny_unknown_fields)]
pub enum W33_569 {
    #[serde(rename = "$ref")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "$refk")]
#[serde(content = "$ref")]
#[serde(deny_unknown_fields)]
pub enum W33_570 {
    #[serde(rename = "$ref")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "$ref")]
#[serde(content = "$refk")]
pub enum W33_571 {
    #[serde(rename = "$ref")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_526 {
    Va {
        #[serde(rename = "const")]
        fa: A,
    },
    Vb {
        #[serde(rename = "const")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "const")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_527 {
    #[serde(rename = "const")]
    Va,
    #[serde(rename = "const2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_528 {
    #[serde(rename = "const")]
    Va {

    },
    #[serde(rename = "const2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_529 {
    #[serde(rename = "const")]
    Va(
        Deny1,
    ),
    #[serde(rename = "const2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "const3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_530 {
    Va {
        #[serde(rename = "const")]
        fa: A,
    },
    Vb {
        #[serde(rename = "const")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "const")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_531 {
    #[serde(rename = "const")]
    Va,
    #[serde(rename = "const2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_532 {
    #[serde(rename = "const")]
    Va {

    },
    #[serde(rename = "const2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_533 {
    #[serde(rename = "const")]
    Va(
        Deny1,
    ),
    #[serde(rename = "const2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "const3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_534 {
    Va {
        #[serde(rename = "const")]
        fa: A,
    },
    Vb {
        #[serde(rename = "const")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "const")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_535 {
    #[serde(rename = "const")]
    Va,
    #[serde(rename = "const2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_536 {
    #[serde(rename = "const")]
    Va {

    },
    #[serde(rename = "const2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_537 {
    #[serde(rename = "const")]
    Va(
        Deny1,
    ),
    #[serde(rename = "const2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "const3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_538 {
    Va {
        #[serde(rename = "const")]
        fa: A,
    },
    Vb {
        #[serde(rename = "const")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "const")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_539 {
    #[serde(rename = "const")]
    Va,
    #[serde(rename = "const2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_540 {
    #[serde(rename = "const")]
    Va {

    },
    #[serde(rename = "const2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_541 {
    #[serde(rename = "const")]
    Va(
        Deny1,
    ),
    #[serde(rename = "const2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "const3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_542 {
    Va {
        #[serde(rename = "const")]
        fa: A,
    },
    Vb {
        #[serde(rename = "const")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "const")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_543 {
    #[serde(rename = "const")]
    Va,
    #[serde(rename = "const2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_544 {
    #[serde(rename = "const")]
    Va {

    },
    #[serde(rename = "const2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_545 {
    #[serde(rename = "const")]
    Va(
        Deny1,
    ),
    #[serde(rename = "const2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "const3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_546 {
    Va {
        #[serde(rename = "const")]
        fa: A,
    },
    Vb {
        #[serde(rename = "const")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "const")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_547 {
    #[serde(rename = "const")]
    Va,
    #[serde(rename = "const2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_548 {
    #[serde(rename = "const")]
    Va {

    },
    #[serde(rename = "const2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_549 {
    #[serde(rename = "const")]
    Va(
        Deny1,
    ),
    #[serde(rename = "const2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "const3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_550 {
    Va {
        #[serde(rename = "const")]
        fa: A,
    },
    Vb {
        #[serde(rename = "const")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "const")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_551 {
    #[serde(rename = "const")]
    Va,
    #[serde(rename = "const2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_552 {
    #[serde(rename = "const")]
    Va {

    },
    #[serde(rename = "const2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_553 {
    #[serde(rename = "const")]
    Va(
        Deny1,
    ),
    #[serde(rename = "const2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "const3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_554 {
    Va {
        #[serde(rename = "const")]
        fa: A,
    },
    Vb {
        #[serde(rename = "const")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "const")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_555 {
    #[serde(rename = "const")]
    Va,
    #[serde(rename = "const2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_556 {
    #[serde(rename = "const")]
    Va {

    },
    #[serde(rename = "const2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_557 {
    #[serde(rename = "const")]
    Va(
        Deny1,
    ),
    #[serde(rename = "const2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "const3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_558 {
    #[serde(rename = "const")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "constx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_559 {
    #[serde(rename = "const")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "constx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_560 {
    #[serde(rename(serialize = "const"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "const1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_561 {
    #[serde(rename(deserialize = "const"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "const1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "const")]
#[serde(deny_unknown_fields)]
pub enum W33_572 {
    #[serde(rename = "const")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "constk")]
#[serde(content = "const")]
#[serde(deny_unknown_fields)]
pub enum W33_573 {
    #[serde(rename = "const")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "const")]
#[serde(content = "constk")]
pub enum W33_574 {
    #[serde(rename = "const")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "const")]
#[serde(deny_unknown_fields)]
pub enum W33_575 {
    #[serde(rename = "constq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "constk")]
#[serde(content = "const")]
#[serde(deny_unknown_fields)]
pub enum W33_576 {
    #[serde(rename = "constq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "const")]
#[serde(content = "constk")]
pub enum W33_577 {
    #[serde(rename = "constq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "const")]
#[serde(deny_unknown_fields)]
pub enum W33_578 {
    #[serde(rename = "const")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "constk")]
#[serde(content = "const")]
#[serde(deny_unknown_fields)]
pub enum W33_579 {
    #[serde(rename = "const")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "const")]
#[serde(content = "constk")]
pub enum W33_580 {
    #[serde(rename = "const")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_562 {
    Va {
        #[serde(rename = "additionalProperties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "additionalProperties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "additionalProperties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_563 {
    #[serde(rename = "additionalProperties")]
    Va,
    #[serde(rename = "additionalProperties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_564 {
    #[serde(rename = "additionalProperties")]
    Va {

    },
    #[serde(rename = "additionalProperties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_565 {
    #[serde(rename = "additionalProperties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "additionalProperties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "additionalProperties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_566 {
    Va {
        #[serde(rename = "additionalProperties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "additionalProperties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "additionalProperties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_567 {
    #[serde(rename = "additionalProperties")]
    Va,
    #[serde(rename = "additionalProperties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_568 {
    #[serde(rename = "additionalProperties")]
    Va {

    },
    #[serde(rename = "additionalProperties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_569 {
    #[serde(rename = "additionalProperties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "additionalProperties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "additionalProperties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_570 {
    Va {
        #[serde(rename = "additionalProperties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "additionalProperties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "additionalProperties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_571 {
    #[serde(rename = "additionalProperties")]
    Va,
    #[serde(rename = "additionalProperties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_572 {
    #[serde(rename = "additionalProperties")]
    Va {

    },
    #[serde(rename = "additionalProperties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_573 {
    #[serde(rename = "additionalProperties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "additionalProperties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "additionalProperties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_574 {
    Va {
        #[serde(rename = "additionalProperties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "additionalProperties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "additionalProperties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_575 {
    #[serde(rename = "additionalProperties")]
    Va,
    #[serde(rename = "additionalProperties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_576 {
    #[serde(rename = "additionalProperties")]
    Va {

    },
    #[serde(rename = "additionalProperties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_577 {
    #[serde(rename = "additionalProperties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "additionalProperties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "additionalProperties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_578 {
    Va {
        #[serde(rename = "additionalProperties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "additionalProperties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "additionalProperties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_579 {
    #[serde(rename = "additionalProperties")]
    Va,
    #[serde(rename = "additionalProperties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_580 {
    #[serde(rename = "additionalProperties")]
    Va {

    },
    #[serde(rename = "additionalProperties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_581 {
    #[serde(rename = "additionalProperties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "additionalProperties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "additionalProperties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_582 {
    Va {
        #[serde(rename = "additionalProperties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "additionalProperties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "additionalProperties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_583 {
    #[serde(rename = "additionalProperties")]
    Va,
    #[serde(rename = "additionalProperties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_584 {
    #[serde(rename = "additionalProperties")]
    Va {

    },
    #[serde(rename = "additionalProperties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_585 {
    #[serde(rename = "additionalProperties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "additionalProperties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "additionalProperties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_586 {
    Va {
        #[serde(rename = "additionalProperties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "additionalProperties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "additionalProperties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_587 {
    #[serde(rename = "additionalProperties")]
    Va,
    #[serde(rename = "additionalProperties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_588 {
    #[serde(rename = "additionalProperties")]
    Va {

    },
    #[serde(rename = "additionalProperties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_589 {
    #[serde(rename = "additionalProperties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "additionalProperties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "additionalProperties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_590 {
    Va {
        #[serde(rename = "additionalProperties")]
        fa: A,
    },
    Vb {
        #[serde(rename = "additionalProperties")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "additionalProperties")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_591 {
    #[serde(rename = "additionalProperties")]
    Va,
    #[serde(rename = "additionalProperties2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_592 {
    #[serde(rename = "additionalProperties")]
    Va {

    },
    #[serde(rename = "additionalProperties2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_593 {
    #[serde(rename = "additionalProperties")]
    Va(
        Deny1,
    ),
    #[serde(rename = "additionalProperties2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "additionalProperties3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_594 {
    #[serde(rename = "additionalProperties")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "additionalPropertiesx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_595 {
    #[serde(rename = "additionalProperties")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "additionalPropertiesx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_596 {
    #[serde(rename(serialize = "additionalProperties"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "additionalProperties1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_597 {
    #[serde(rename(deserialize = "additionalProperties"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "additionalProperties1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "additionalProperties")]
#[serde(deny_unknown_fields)]
pub enum W33_581 {
    #[serde(rename = "additionalProperties")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "additionalPropertiesk")]
#[serde(content = "additionalProperties")]
#[serde(deny_unknown_fields)]
pub enum W33_582 {
    #[serde(rename = "additionalProperties")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "additionalProperties")]
#[serde(content = "additionalPropertiesk")]
pub enum W33_583 {
    #[serde(rename = "additionalProperties")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "additionalProperties")]
#[serde(deny_unknown_fields)]
pub enum W33_584 {
    #[serde(rename = "additionalPropertiesq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "additionalPropertiesk")]
#[serde(content = "additionalProperties")]
#[serde(deny_unknown_fields)]
pub enum W33_585 {
    #[serde(rename = "additionalPropertiesq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "additionalProperties")]
#[serde(content = "additionalPropertiesk")]
pub enum W33_586 {
    #[serde(rename = "additionalPropertiesq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "additionalProperties")]
#[serde(deny_unknown_fields)]
pub enum W33_587 {
    #[serde(rename = "additionalProperties")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "additionalPropertiesk")]
#[serde(content = "additionalProperties")]
#[serde(deny_unknown_fields)]
pub enum W33_588 {
    #[serde(rename = "additionalProperties")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "additionalProperties")]
#[serde(content = "additionalPropertiesk")]
pub enum W33_589 {
    #[serde(rename = "additionalProperties")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_598 {
    Va {
        #[serde(rename = "Va")]
        fa: A,
    },
    Vb {
        #[serde(rename = "Va")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "Va")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_599 {
    #[serde(rename = "Va")]
    Va,
    #[serde(rename = "Va2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_600 {
    #[serde(rename = "Va")]
    Va {

    },
    #[serde(rename = "Va2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_601 {
    #[serde(rename = "Va")]
    Va(
        Deny1,
    ),
    #[serde(rename = "Va2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "Va3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_602 {
    Va {
        #[serde(rename = "Va")]
        fa: A,
    },
    Vb {
        #[serde(rename = "Va")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "Va")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_603 {
    #[serde(rename = "Va")]
    Va,
    #[serde(rename = "Va2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_604 {
    #[serde(rename = "Va")]
    Va {

    },
    #[serde(rename = "Va2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_605 {
    #[serde(rename = "Va")]
    Va(
        Deny1,
    ),
    #[serde(rename = "Va2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "Va3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_606 {
    Va {
        #[serde(rename = "Va")]
        fa: A,
    },
    Vb {
        #[serde(rename = "Va")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "Va")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_607 {
    #[serde(rename = "Va")]
    Va,
    #[serde(rename = "Va2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_608 {
    #[serde(rename = "Va")]
    Va {

    },
    #[serde(rename = "Va2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_609 {
    #[serde(rename = "Va")]
    Va(
        Deny1,
    ),
    #[serde(rename = "Va2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "Va3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_610 {
    Va {
        #[serde(rename = "Va")]
        fa: A,
    },
    Vb {
        #[serde(rename = "Va")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "Va")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_611 {
    #[serde(rename = "Va")]
    Va,
    #[serde(rename = "Va2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_612 {
    #[serde(rename = "Va")]
    Va {

    },
    #[serde(rename = "Va2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_613 {
    #[serde(rename = "Va")]
    Va(
        Deny1,
    ),
    #[serde(rename = "Va2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "Va3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_614 {
    Va {
        #[serde(rename = "Va")]
        fa: A,
    },
    Vb {
        #[serde(rename = "Va")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "Va")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_615 {
    #[serde(rename = "Va")]
    Va,
    #[serde(rename = "Va2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_616 {
    #[serde(rename = "Va")]
    Va {

    },
    #[serde(rename = "Va2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_617 {
    #[serde(rename = "Va")]
    Va(
        Deny1,
    ),
    #[serde(rename = "Va2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "Va3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_618 {
    Va {
        #[serde(rename = "Va")]
        fa: A,
    },
    Vb {
        #[serde(rename = "Va")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "Va")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_619 {
    #[serde(rename = "Va")]
    Va,
    #[serde(rename = "Va2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_620 {
    #[serde(rename = "Va")]
    Va {

    },
    #[serde(rename = "Va2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_621 {
    #[serde(rename = "Va")]
    Va(
        Deny1,
    ),
    #[serde(rename = "Va2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "Va3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_622 {
    Va {
        #[serde(rename = "Va")]
        fa: A,
    },
    Vb {
        #[serde(rename = "Va")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "Va")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_623 {
    #[serde(rename = "Va")]
    Va,
    #[serde(rename = "Va2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_624 {
    #[serde(rename = "Va")]
    Va {

    },
    #[serde(rename = "Va2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_625 {
    #[serde(rename = "Va")]
    Va(
        Deny1,
    ),
    #[serde(rename = "Va2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "Va3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_626 {
    Va {
        #[serde(rename = "Va")]
        fa: A,
    },
    Vb {
        #[serde(rename = "Va")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "Va")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_627 {
    #[serde(rename = "Va")]
    Va,
    #[serde(rename = "Va2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_628 {
    #[serde(rename = "Va")]
    Va {

    },
    #[serde(rename = "Va2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_629 {
    #[serde(rename = "Va")]
    Va(
        Deny1,
    ),
    #[serde(rename = "Va2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "Va3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_630 {
    #[serde(rename = "Va")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "Vax")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_631 {
    #[serde(rename = "Va")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "Vax")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_632 {
    #[serde(rename(serialize = "Va"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "Va1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_633 {
    #[serde(rename(deserialize = "Va"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "Va1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "Va")]
#[serde(deny_unknown_fields)]
pub enum W33_590 {
    #[serde(rename = "Va")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "Vak")]
#[serde(content = "Va")]
#[serde(deny_unknown_fields)]
pub enum W33_591 {
    #[serde(rename = "Va")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "Va")]
#[serde(content = "Vak")]
pub enum W33_592 {
    #[serde(rename = "Va")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "Va")]
#[serde(deny_unknown_fields)]
pub enum W33_593 {
    #[serde(rename = "Vaq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "Vak")]
#[serde(content = "Va")]
#[serde(deny_unknown_fields)]
pub enum W33_594 {
    #[serde(rename = "Vaq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "Va")]
#[serde(content = "Vak")]
pub enum W33_595 {
    #[serde(rename = "Vaq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "Va")]
#[serde(deny_unknown_fields)]
pub enum W33_596 {
    #[serde(rename = "Va")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "Vak")]
#[serde(content = "Va")]
#[serde(deny_unknown_fields)]
pub enum W33_597 {
    #[serde(rename = "Va")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "Va")]
#[serde(content = "Vak")]
pub enum W33_598 {
    #[serde(rename = "Va")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_634 {
    Va {
        #[serde(rename = "null")]
        fa: A,
    },
    Vb {
        #[serde(rename = "null")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "null")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_635 {
    #[serde(rename = "null")]
    Va,
    #[serde(rename = "null2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_636 {
    #[serde(rename = "null")]
    Va {

    },
    #[serde(rename = "null2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_637 {
    #[serde(rename = "null")]
    Va(
        Deny1,
    ),
    #[serde(rename = "null2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "null3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_638 {
    Va {
        #[serde(rename = "null")]
        fa: A,
    },
    Vb {
        #[serde(rename = "null")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "null")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_639 {
    #[serde(rename = "null")]
    Va,
    #[serde(rename = "null2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_640 {
    #[serde(rename = "null")]
    Va {

    },
    #[serde(rename = "null2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_641 {
    #[serde(rename = "null")]
    Va(
        Deny1,
    ),
    #[serde(rename = "null2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "null3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_642 {
    Va {
        #[serde(rename = "null")]
        fa: A,
    },
    Vb {
        #[serde(rename = "null")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "null")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_643 {
    #[serde(rename = "null")]
    Va,
    #[serde(rename = "null2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_644 {
    #[serde(rename = "null")]
    Va {

    },
    #[serde(rename = "null2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_645 {
    #[serde(rename = "null")]
    Va(
        Deny1,
    ),
    #[serde(rename = "null2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "null3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_646 {
    Va {
        #[serde(rename = "null")]
        fa: A,
    },
    Vb {
        #[serde(rename = "null")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "null")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_647 {
    #[serde(rename = "null")]
    Va,
    #[serde(rename = "null2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_648 {
    #[serde(rename = "null")]
    Va {

    },
    #[serde(rename = "null2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_649 {
    #[serde(rename = "null")]
    Va(
        Deny1,
    ),
    #[serde(rename = "null2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "null3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_650 {
    Va {
        #[serde(rename = "null")]
        fa: A,
    },
    Vb {
        #[serde(rename = "null")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "null")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_651 {
    #[serde(rename = "null")]
    Va,
    #[serde(rename = "null2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_652 {
    #[serde(rename = "null")]
    Va {

    },
    #[serde(rename = "null2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_653 {
    #[serde(rename = "null")]
    Va(
        Deny1,
    ),
    #[serde(rename = "null2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "null3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_654 {
    Va {
        #[serde(rename = "null")]
        fa: A,
    },
    Vb {
        #[serde(rename = "null")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "null")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_655 {
    #[serde(rename = "null")]
    Va,
    #[serde(rename = "null2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_656 {
    #[serde(rename = "null")]
    Va {

    },
    #[serde(rename = "null2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_657 {
    #[serde(rename = "null")]
    Va(
        Deny1,
    ),
    #[serde(rename = "null2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "null3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_658 {
    Va {
        #[serde(rename = "null")]
        fa: A,
    },
    Vb {
        #[serde(rename = "null")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "null")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_659 {
    #[serde(rename = "null")]
    Va,
    #[serde(rename = "null2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_660 {
    #[serde(rename = "null")]
    Va {

    },
    #[serde(rename = "null2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_661 {
    #[serde(rename = "null")]
    Va(
        Deny1,
    ),
    #[serde(rename = "null2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "null3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_662 {
    Va {
        #[serde(rename = "null")]
        fa: A,
    },
    Vb {
        #[serde(rename = "null")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "null")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_663 {
    #[serde(rename = "null")]
    Va,
    #[serde(rename = "null2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_664 {
    #[serde(rename = "null")]
    Va {

    },
    #[serde(rename = "null2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_665 {
    #[serde(rename = "null")]
    Va(
        Deny1,
    ),
    #[serde(rename = "null2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "null3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_666 {
    #[serde(rename = "null")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "nullx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_667 {
    #[serde(rename = "null")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "nullx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_668 {
    #[serde(rename(serialize = "null"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "null1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_669 {
    #[serde(rename(deserialize = "null"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "null1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "null")]
#[serde(deny_unknown_fields)]
pub enum W33_599 {
    #[serde(rename = "null")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "nullk")]
#[serde(content = "null")]
#[serde(deny_unknown_fields)]
pub enum W33_600 {
    #[serde(rename = "null")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "null")]
#[serde(content = "nullk")]
pub enum W33_601 {
    #[serde(rename = "null")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "null")]
#[serde(deny_unknown_fields)]
pub enum W33_602 {
    #[serde(rename = "nullq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "nullk")]
#[serde(content = "null")]
#[serde(deny_unknown_fields)]
pub enum W33_603 {
    #[serde(rename = "nullq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "null")]
#[serde(content = "nullk")]
pub enum W33_604 {
    #[serde(rename = "nullq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "null")]
#[serde(deny_unknown_fields)]
pub enum W33_605 {
    #[serde(rename = "null")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "nullk")]
#[serde(content = "null")]
#[serde(deny_unknown_fields)]
pub enum W33_606 {
    #[serde(rename = "null")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "null")]
#[serde(content = "nullk")]
pub enum W33_607 {
    #[serde(rename = "null")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_670 {
    Va {
        #[serde(rename = "#")]
        fa: A,
    },
    Vb {
        #[serde(rename = "#")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "#")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_671 {
    #[serde(rename = "#")]
    Va,
    #[serde(rename = "#2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_672 {
    #[serde(rename = "#")]
    Va {

    },
    #[serde(rename = "#2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_673 {
    #[serde(rename = "#")]
    Va(
        Deny1,
    ),
    #[serde(rename = "#2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "#3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_674 {
    Va {
        #[serde(rename = "#")]
        fa: A,
    },
    Vb {
        #[serde(rename = "#")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "#")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_675 {
    #[serde(rename = "#")]
    Va,
    #[serde(rename = "#2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_676 {
    #[serde(rename = "#")]
    Va {

    },
    #[serde(rename = "#2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_677 {
    #[serde(rename = "#")]
    Va(
        Deny1,
    ),
    #[serde(rename = "#2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "#3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_678 {
    Va {
        #[serde(rename = "#")]
        fa: A,
    },
    Vb {
        #[serde(rename = "#")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "#")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_679 {
    #[serde(rename = "#")]
    Va,
    #[serde(rename = "#2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_680 {
    #[serde(rename = "#")]
    Va {

    },
    #[serde(rename = "#2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_681 {
    #[serde(rename = "#")]
    Va(
        Deny1,
    ),
    #[serde(rename = "#2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "#3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_682 {
    Va {
        #[serde(rename = "#")]
        fa: A,
    },
    Vb {
        #[serde(rename = "#")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "#")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_683 {
    #[serde(rename = "#")]
    Va,
    #[serde(rename = "#2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_684 {
    #[serde(rename = "#")]
    Va {

    },
    #[serde(rename = "#2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_685 {
    #[serde(rename = "#")]
    Va(
        Deny1,
    ),
    #[serde(rename = "#2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "#3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_686 {
    Va {
        #[serde(rename = "#")]
        fa: A,
    },
    Vb {
        #[serde(rename = "#")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "#")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_687 {
    #[serde(rename = "#")]
    Va,
    #[serde(rename = "#2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_688 {
    #[serde(rename = "#")]
    Va {

    },
    #[serde(rename = "#2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_689 {
    #[serde(rename = "#")]
    Va(
        Deny1,
    ),
    #[serde(rename = "#2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "#3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_690 {
    Va {
        #[serde(rename = "#")]
        fa: A,
    },
    Vb {
        #[serde(rename = "#")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "#")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_691 {
    #[serde(rename = "#")]
    Va,
    #[serde(rename = "#2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_692 {
    #[serde(rename = "#")]
    Va {

    },
    #[serde(rename = "#2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_693 {
    #[serde(rename = "#")]
    Va(
        Deny1,
    ),
    #[serde(rename = "#2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "#3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_694 {
    Va {
        #[serde(rename = "#")]
        fa: A,
    },
    Vb {
        #[serde(rename = "#")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "#")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_695 {
    #[serde(rename = "#")]
    Va,
    #[serde(rename = "#2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_696 {
    #[serde(rename = "#")]
    Va {

    },
    #[serde(rename = "#2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_697 {
    #[serde(rename = "#")]
    Va(
        Deny1,
    ),
    #[serde(rename = "#2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "#3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_698 {
    Va {
        #[serde(rename = "#")]
        fa: A,
    },
    Vb {
        #[serde(rename = "#")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "#")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_699 {
    #[serde(rename = "#")]
    Va,
    #[serde(rename = "#2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_700 {
    #[serde(rename = "#")]
    Va {

    },
    #[serde(rename = "#2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_701 {
    #[serde(rename = "#")]
    Va(
        Deny1,
    ),
    #[serde(rename = "#2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "#3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_702 {
    #[serde(rename = "#")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "#x")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_703 {
    #[serde(rename = "#")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "#x")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_704 {
    #[serde(rename(serialize = "#"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "#1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_705 {
    #[serde(rename(deserialize = "#"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "#1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "#")]
#[serde(deny_unknown_fields)]
pub enum W33_608 {
    #[serde(rename = "#")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "#k")]
#[serde(content = "#")]
#[serde(deny_unknown_fields)]
pub enum W33_609 {
    #[serde(rename = "#")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "#")]
#[serde(content = "#k")]
pub enum W33_610 {
    #[serde(rename = "#")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "#")]
#[serde(deny_unknown_fields)]
pub enum W33_611 {
    #[serde(rename = "#q")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "#k")]
#[serde(content = "#")]
#[serde(deny_unknown_fields)]
pub enum W33_612 {
    #[serde(rename = "#q")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "#")]
#[serde(content = "#k")]
pub enum W33_613 {
    #[serde(rename = "#q")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "#")]
#[serde(deny_unknown_fields)]
pub enum W33_614 {
    #[serde(rename = "#")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "#k")]
#[serde(content = "#")]
#[serde(deny_unknown_fields)]
pub enum W33_615 {
    #[serde(rename = "#")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "#")]
#[serde(content = "#k")]
pub enum W33_616 {
    #[serde(rename = "#")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_706 {
    Va {
        #[serde(rename = "/")]
        fa: A,
    },
    Vb {
        #[serde(rename = "/")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "/")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_707 {
    #[serde(rename = "/")]
    Va,
    #[serde(rename = "/2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_708 {
    #[serde(rename = "/")]
    Va {

    },
    #[serde(rename = "/2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_709 {
    #[serde(rename = "/")]
    Va(
        Deny1,
    ),
    #[serde(rename = "/2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "/3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_710 {
    Va {
        #[serde(rename = "/")]
        fa: A,
    },
    Vb {
        #[serde(rename = "/")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "/")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_711 {
    #[serde(rename = "/")]
    Va,
    #[serde(rename = "/2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_712 {
    #[serde(rename = "/")]
    Va {

    },
    #[serde(rename = "/2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_713 {
    #[serde(rename = "/")]
    Va(
        Deny1,
    ),
    #[serde(rename = "/2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "/3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_714 {
    Va {
        #[serde(rename = "/")]
        fa: A,
    },
    Vb {
        #[serde(rename = "/")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "/")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_715 {
    #[serde(rename = "/")]
    Va,
    #[serde(rename = "/2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_716 {
    #[serde(rename = "/")]
    Va {

    },
    #[serde(rename = "/2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_717 {
    #[serde(rename = "/")]
    Va(
        Deny1,
    ),
    #[serde(rename = "/2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "/3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_718 {
    Va {
        #[serde(rename = "/")]
        fa: A,
    },
    Vb {
        #[serde(rename = "/")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "/")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_719 {
    #[serde(rename = "/")]
    Va,
    #[serde(rename = "/2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_720 {
    #[serde(rename = "/")]
    Va {

    },
    #[serde(rename = "/2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_721 {
    #[serde(rename = "/")]
    Va(
        Deny1,
    ),
    #[serde(rename = "/2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "/3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_722 {
    Va {
        #[serde(rename = "/")]
        fa: A,
    },
    Vb {
        #[serde(rename = "/")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "/")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_723 {
    #[serde(rename = "/")]
    Va,
    #[serde(rename = "/2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_724 {
    #[serde(rename = "/")]
    Va {

    },
    #[serde(rename = "/2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_725 {
    #[serde(rename = "/")]
    Va(
        Deny1,
    ),
    #[serde(rename = "/2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "/3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_726 {
    Va {
        #[serde(rename = "/")]
        fa: A,
    },
    Vb {
        #[serde(rename = "/")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "/")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_727 {
    #[serde(rename = "/")]
    Va,
    #[serde(rename = "/2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_728 {
    #[serde(rename = "/")]
    Va {

    },
    #[serde(rename = "/2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_729 {
    #[serde(rename = "/")]
    Va(
        Deny1,
    ),
    #[serde(rename = "/2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "/3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_730 {
    Va {
        #[serde(rename = "/")]
        fa: A,
    },
    Vb {
        #[serde(rename = "/")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "/")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_731 {
    #[serde(rename = "/")]
    Va,
    #[serde(rename = "/2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_732 {
    #[serde(rename = "/")]
    Va {

    },
    #[serde(rename = "/2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_733 {
    #[serde(rename = "/")]
    Va(
        Deny1,
    ),
    #[serde(rename = "/2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "/3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_734 {
    Va {
        #[serde(rename = "/")]
        fa: A,
    },
    Vb {
        #[serde(rename = "/")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "/")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_735 {
    #[serde(rename = "/")]
    Va,
    #[serde(rename = "/2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_736 {
    #[serde(rename = "/")]
    Va {

    },
    #[serde(rename = "/2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_737 {
    #[serde(rename = "/")]
    Va(
        Deny1,
    ),
    #[serde(rename = "/2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "/3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_738 {
    #[serde(rename = "/")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "/x")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_739 {
    #[serde(rename = "/")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "/x")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_740 {
    #[serde(rename(serialize = "/"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "/1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_741 {
    #[serde(rename(deserialize = "/"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "/1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "/")]
#[serde(deny_unknown_fields)]
pub enum W33_617 {
    #[serde(rename = "/")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "/k")]
#[serde(content = "/")]
#[serde(deny_unknown_fields)]
pub enum W33_618 {
    #[serde(rename = "/")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "/")]
#[serde(content = "/k")]
pub enum W33_619 {
    #[serde(rename = "/")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "/")]
#[serde(deny_unknown_fields)]
pub enum W33_620 {
    #[serde(rename = "/q")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "/k")]
#[serde(content = "/")]
#[serde(deny_unknown_fields)]
pub enum W33_621 {
    #[serde(rename = "/q")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "/")]
#[serde(content = "/k")]
pub enum W33_622 {
    #[serde(rename = "/q")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "/")]
#[serde(deny_unknown_fields)]
pub enum W33_623 {
    #[serde(rename = "/")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "/k")]
#[serde(content = "/")]
#[serde(deny_unknown_fields)]
pub enum W33_624 {
    #[serde(rename = "/")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "/")]
#[serde(content = "/k")]
pub enum W33_625 {
    #[serde(rename = "/")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_742 {
    Va {
        #[serde(rename = "~")]
        fa: A,
    },
    Vb {
        #[serde(rename = "~")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "~")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_743 {
    #[serde(rename = "~")]
    Va,
    #[serde(rename = "~2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_744 {
    #[serde(rename = "~")]
    Va {

    },
    #[serde(rename = "~2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_745 {
    #[serde(rename = "~")]
    Va(
        Deny1,
    ),
    #[serde(rename = "~2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "~3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_746 {
    Va {
        #[serde(rename = "~")]
        fa: A,
    },
    Vb {
        #[serde(rename = "~")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "~")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_747 {
    #[serde(rename = "~")]
    Va,
    #[serde(rename = "~2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_748 {
    #[serde(rename = "~")]
    Va {

    },
    #[serde(rename = "~2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_749 {
    #[serde(rename = "~")]
    Va(
        Deny1,
    ),
    #[serde(rename = "~2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "~3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_750 {
    Va {
        #[serde(rename = "~")]
        fa: A,
    },
    Vb {
        #[serde(rename = "~")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "~")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_751 {
    #[serde(rename = "~")]
    Va,
    #[serde(rename = "~2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_752 {
    #[serde(rename = "~")]
    Va {

    },
    #[serde(rename = "~2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_753 {
    #[serde(rename = "~")]
    Va(
        Deny1,
    ),
    #[serde(rename = "~2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "~3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_754 {
    Va {
        #[serde(rename = "~")]
        fa: A,
    },
    Vb {
        #[serde(rename = "~")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "~")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_755 {
    #[serde(rename = "~")]
    Va,
    #[serde(rename = "~2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_756 {
    #[serde(rename = "~")]
    Va {

    },
    #[serde(rename = "~2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_757 {
    #[serde(rename = "~")]
    Va(
        Deny1,
    ),
    #[serde(rename = "~2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "~3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_758 {
    Va {
        #[serde(rename = "~")]
        fa: A,
    },
    Vb {
        #[serde(rename = "~")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "~")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_759 {
    #[serde(rename = "~")]
    Va,
    #[serde(rename = "~2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_760 {
    #[serde(rename = "~")]
    Va {

    },
    #[serde(rename = "~2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_761 {
    #[serde(rename = "~")]
    Va(
        Deny1,
    ),
    #[serde(rename = "~2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "~3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_762 {
    Va {
        #[serde(rename = "~")]
        fa: A,
    },
    Vb {
        #[serde(rename = "~")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "~")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_763 {
    #[serde(rename = "~")]
    Va,
    #[serde(rename = "~2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_764 {
    #[serde(rename = "~")]
    Va {

    },
    #[serde(rename = "~2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_765 {
    #[serde(rename = "~")]
    Va(
        Deny1,
    ),
    #[serde(rename = "~2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "~3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_766 {
    Va {
        #[serde(rename = "~")]
        fa: A,
    },
    Vb {
        #[serde(rename = "~")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "~")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_767 {
    #[serde(rename = "~")]
    Va,
    #[serde(rename = "~2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_768 {
    #[serde(rename = "~")]
    Va {

    },
    #[serde(rename = "~2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_769 {
    #[serde(rename = "~")]
    Va(
        Deny1,
    ),
    #[serde(rename = "~2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "~3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_770 {
    Va {
        #[serde(rename = "~")]
        fa: A,
    },
    Vb {
        #[serde(rename = "~")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "~")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_771 {
    #[serde(rename = "~")]
    Va,
    #[serde(rename = "~2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_772 {
    #[serde(rename = "~")]
    Va {

    },
    #[serde(rename = "~2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_773 {
    #[serde(rename = "~")]
    Va(
        Deny1,
    ),
    #[serde(rename = "~2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "~3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_774 {
    #[serde(rename = "~")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "~x")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_775 {
    #[serde(rename = "~")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "~x")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_776 {
    #[serde(rename(serialize = "~"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "~1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_777 {
    #[serde(rename(deserialize = "~"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "~1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "~")]
#[serde(deny_unknown_fields)]
pub enum W33_626 {
    #[serde(rename = "~")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "~k")]
#[serde(content = "~")]
#[serde(deny_unknown_fields)]
pub enum W33_627 {
    #[serde(rename = "~")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "~")]
#[serde(content = "~k")]
pub enum W33_628 {
    #[serde(rename = "~")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "~")]
#[serde(deny_unknown_fields)]
pub enum W33_629 {
    #[serde(rename = "~q")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "~k")]
#[serde(content = "~")]
#[serde(deny_unknown_fields)]
pub enum W33_630 {
    #[serde(rename = "~q")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "~")]
#[serde(content = "~k")]
pub enum W33_631 {
    #[serde(rename = "~q")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "~")]
#[serde(deny_unknown_fields)]
pub enum W33_632 {
    #[serde(rename = "~")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "~k")]
#[serde(content = "~")]
#[serde(deny_unknown_fields)]
pub enum W33_633 {
    #[serde(rename = "~")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "~")]
#[serde(content = "~k")]
pub enum W33_634 {
    #[serde(rename = "~")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_778 {
    Va {
        #[serde(rename = "oneOf")]
        fa: A,
    },
    Vb {
        #[serde(rename = "oneOf")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "oneOf")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_779 {
    #[serde(rename = "oneOf")]
    Va,
    #[serde(rename = "oneOf2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_780 {
    #[serde(rename = "oneOf")]
    Va {

    },
    #[serde(rename = "oneOf2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_781 {
    #[serde(rename = "oneOf")]
    Va(
        Deny1,
    ),
    #[serde(rename = "oneOf2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "oneOf3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_782 {
    Va {
        #[serde(rename = "oneOf")]
        fa: A,
    },
    Vb {
        #[serde(rename = "oneOf")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "oneOf")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_783 {
    #[serde(rename = "oneOf")]
    Va,
    #[serde(rename = "oneOf2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_784 {
    #[serde(rename = "oneOf")]
    Va {

    },
    #[serde(rename = "oneOf2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_785 {
    #[serde(rename = "oneOf")]
    Va(
        Deny1,
    ),
    #[serde(rename = "oneOf2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "oneOf3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_786 {
    Va {
        #[serde(rename = "oneOf")]
        fa: A,
    },
    Vb {
        #[serde(rename = "oneOf")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "oneOf")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_787 {
    #[serde(rename = "oneOf")]
    Va,
    #[serde(rename = "oneOf2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_788 {
    #[serde(rename = "oneOf")]
    Va {

    },
    #[serde(rename = "oneOf2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_789 {
    #[serde(rename = "oneOf")]
    Va(
        Deny1,
    ),
    #[serde(rename = "oneOf2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "oneOf3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_790 {
    Va {
        #[serde(rename = "oneOf")]
        fa: A,
    },
    Vb {
        #[serde(rename = "oneOf")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "oneOf")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_791 {
    #[serde(rename = "oneOf")]
    Va,
    #[serde(rename = "oneOf2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_792 {
    #[serde(rename = "oneOf")]
    Va {

    },
    #[serde(rename = "oneOf2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_793 {
    #[serde(rename = "oneOf")]
    Va(
        Deny1,
    ),
    #[serde(rename = "oneOf2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "oneOf3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_794 {
    Va {
        #[serde(rename = "oneOf")]
        fa: A,
    },
    Vb {
        #[serde(rename = "oneOf")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "oneOf")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_795 {
    #[serde(rename = "oneOf")]
    Va,
    #[serde(rename = "oneOf2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_796 {
    #[serde(rename = "oneOf")]
    Va {

    },
    #[serde(rename = "oneOf2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_797 {
    #[serde(rename = "oneOf")]
    Va(
        Deny1,
    ),
    #[serde(rename = "oneOf2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "oneOf3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_798 {
    Va {
        #[serde(rename = "oneOf")]
        fa: A,
    },
    Vb {
        #[serde(rename = "oneOf")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "oneOf")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_799 {
    #[serde(rename = "oneOf")]
    Va,
    #[serde(rename = "oneOf2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_800 {
    #[serde(rename = "oneOf")]
    Va {

    },
    #[serde(rename = "oneOf2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_801 {
    #[serde(rename = "oneOf")]
    Va(
        Deny1,
    ),
    #[serde(rename = "oneOf2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "oneOf3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_802 {
    Va {
        #[serde(rename = "oneOf")]
        fa: A,
    },
    Vb {
        #[serde(rename = "oneOf")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "oneOf")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_803 {
    #[serde(rename = "oneOf")]
    Va,
    #[serde(rename = "oneOf2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_804 {
    #[serde(rename = "oneOf")]
    Va {

    },
    #[serde(rename = "oneOf2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_805 {
    #[serde(rename = "oneOf")]
    Va(
        Deny1,
    ),
    #[serde(rename = "oneOf2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "oneOf3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_806 {
    Va {
        #[serde(rename = "oneOf")]
        fa: A,
    },
    Vb {
        #[serde(rename = "oneOf")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "oneOf")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_807 {
    #[serde(rename = "oneOf")]
    Va,
    #[serde(rename = "oneOf2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_808 {
    #[serde(rename = "oneOf")]
    Va {

    },
    #[serde(rename = "oneOf2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_809 {
    #[serde(rename = "oneOf")]
    Va(
        Deny1,
    ),
    #[serde(rename = "oneOf2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "oneOf3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_810 {
    #[serde(rename = "oneOf")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "oneOfx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_811 {
    #[serde(rename = "oneOf")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "oneOfx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_812 {
    #[serde(rename(serialize = "oneOf"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "oneOf1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_813 {
    #[serde(rename(deserialize = "oneOf"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "oneOf1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "oneOf")]
#[serde(deny_unknown_fields)]
pub enum W33_635 {
    #[serde(rename = "oneOf")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "oneOfk")]
#[serde(content = "oneOf")]
#[serde(deny_unknown_fields)]
pub enum W33_636 {
    #[serde(rename = "oneOf")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "oneOf")]
#[serde(content = "oneOfk")]
pub enum W33_637 {
    #[serde(rename = "oneOf")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "oneOf")]
#[serde(deny_unknown_fields)]
pub enum W33_638 {
    #[serde(rename = "oneOfq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "oneOfk")]
#[serde(content = "oneOf")]
#[serde(deny_unknown_fields)]
pub enum W33_639 {
    #[serde(rename = "oneOfq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "oneOf")]
#[serde(content = "oneOfk")]
pub enum W33_640 {
    #[serde(rename = "oneOfq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "oneOf")]
#[serde(deny_unknown_fields)]
pub enum W33_641 {
    #[serde(rename = "oneOf")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "oneOfk")]
#[serde(content = "oneOf")]
#[serde(deny_unknown_fields)]
pub enum W33_642 {
    #[serde(rename = "oneOf")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "oneOf")]
#[serde(content = "oneOfk")]
pub enum W33_643 {
    #[serde(rename = "oneOf")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_814 {
    Va {
        #[serde(rename = "enum")]
        fa: A,
    },
    Vb {
        #[serde(rename = "enum")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "enum")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
pub enum W31_815 {
    #[serde(rename = "enum")]
    Va,
    #[serde(rename = "enum2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub enum W31_816 {
    #[serde(rename = "enum")]
    Va {

    },
    #[serde(rename = "enum2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
pub enum W31_817 {
    #[serde(rename = "enum")]
    Va(
        Deny1,
    ),
    #[serde(rename = "enum2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "enum3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_818 {
    Va {
        #[serde(rename = "enum")]
        fa: A,
    },
    Vb {
        #[serde(rename = "enum")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "enum")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_819 {
    #[serde(rename = "enum")]
    Va,
    #[serde(rename = "enum2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_820 {
    #[serde(rename = "enum")]
    Va {

    },
    #[serde(rename = "enum2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W31_821 {
    #[serde(rename = "enum")]
    Va(
        Deny1,
    ),
    #[serde(rename = "enum2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "enum3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_822 {
    Va {
        #[serde(rename = "enum")]
        fa: A,
    },
    Vb {
        #[serde(rename = "enum")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "enum")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_823 {
    #[serde(rename = "enum")]
    Va,
    #[serde(rename = "enum2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_824 {
    #[serde(rename = "enum")]
    Va {

    },
    #[serde(rename = "enum2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_825 {
    #[serde(rename = "enum")]
    Va(
        Deny1,
    ),
    #[serde(rename = "enum2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "enum3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_826 {
    Va {
        #[serde(rename = "enum")]
        fa: A,
    },
    Vb {
        #[serde(rename = "enum")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "enum")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_827 {
    #[serde(rename = "enum")]
    Va,
    #[serde(rename = "enum2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_828 {
    #[serde(rename = "enum")]
    Va {

    },
    #[serde(rename = "enum2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_829 {
    #[serde(rename = "enum")]
    Va(
        Deny1,
    ),
    #[serde(rename = "enum2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "enum3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_830 {
    Va {
        #[serde(rename = "enum")]
        fa: A,
    },
    Vb {
        #[serde(rename = "enum")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "enum")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_831 {
    #[serde(rename = "enum")]
    Va,
    #[serde(rename = "enum2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_832 {
    #[serde(rename = "enum")]
    Va {

    },
    #[serde(rename = "enum2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_833 {
    #[serde(rename = "enum")]
    Va(
        Deny1,
    ),
    #[serde(rename = "enum2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "enum3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_834 {
    Va {
        #[serde(rename = "enum")]
        fa: A,
    },
    Vb {
        #[serde(rename = "enum")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "enum")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_835 {
    #[serde(rename = "enum")]
    Va,
    #[serde(rename = "enum2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_836 {
    #[serde(rename = "enum")]
    Va {

    },
    #[serde(rename = "enum2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_837 {
    #[serde(rename = "enum")]
    Va(
        Deny1,
    ),
    #[serde(rename = "enum2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "enum3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_838 {
    Va {
        #[serde(rename = "enum")]
        fa: A,
    },
    Vb {
        #[serde(rename = "enum")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "enum")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_839 {
    #[serde(rename = "enum")]
    Va,
    #[serde(rename = "enum2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_840 {
    #[serde(rename = "enum")]
    Va {

    },
    #[serde(rename = "enum2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_841 {
    #[serde(rename = "enum")]
    Va(
        Deny1,
    ),
    #[serde(rename = "enum2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "enum3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_842 {
    Va {
        #[serde(rename = "enum")]
        fa: A,
    },
    Vb {
        #[serde(rename = "enum")]
        fa: Option<A>,
    },
    Vc {
        #[serde(default)]
        #[serde(rename = "enum")]
        fa: A,
        fb: B,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_843 {
    #[serde(rename = "enum")]
    Va,
    #[serde(rename = "enum2")]
    Vb(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_844 {
    #[serde(rename = "enum")]
    Va {

    },
    #[serde(rename = "enum2")]
    Vb(
        (),
    ),
    /// d
    Vc,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_845 {
    #[serde(rename = "enum")]
    Va(
        Deny1,
    ),
    #[serde(rename = "enum2")]
    Vb {
        fa: A,
    },
    #[serde(rename = "enum3")]
    #[serde(skip_serializing)]
    Vc,
}
#[derive(JsonSchema)]
pub struct W31_846 {
    #[serde(rename = "enum")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "enumx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_847 {
    #[serde(rename = "enum")]
    pub fa: A,
    pub fb: Option<B>,
    #[serde(rename = "enumx")]
    #[serde(skip_deserializing)]
    pub fc: A,
}
#[derive(JsonSchema)]
pub struct W31_848 {
    #[serde(rename(serialize = "enum"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(serialize = "enum1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
pub struct W31_849 {
    #[serde(rename(deserialize = "enum"))]
    #[serde(skip_serializing_if = "sif")]
    pub fa: A,
    #[serde(rename(deserialize = "enum1"))]
    pub fb: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "enum")]
#[serde(deny_unknown_fields)]
pub enum W33_644 {
    #[serde(rename = "enum")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "enumk")]
#[serde(content = "enum")]
#[serde(deny_unknown_fields)]
pub enum W33_645 {
    #[serde(rename = "enum")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "enum")]
#[serde(content = "enumk")]
pub enum W33_646 {
    #[serde(rename = "enum")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "enum")]
#[serde(deny_unknown_fields)]
pub enum W33_647 {
    #[serde(rename = "enumq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "enumk")]
#[serde(content = "enum")]
#[serde(deny_unknown_fields)]
pub enum W33_648 {
    #[serde(rename = "enumq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "enum")]
#[serde(content = "enumk")]
pub enum W33_649 {
    #[serde(rename = "enumq")]
    Vx,
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "enum")]
#[serde(deny_unknown_fields)]
pub enum W33_650 {
    #[serde(rename = "enum")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "enumk")]
#[serde(content = "enum")]
#[serde(deny_unknown_fields)]
pub enum W33_651 {
    #[serde(rename = "enum")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "enum")]
#[serde(content = "enumk")]
pub enum W33_652 {
    #[serde(rename = "enum")]
    Vx {
        z: A,
    },
    Vy(
        Inner1,
    ),
}
#[derive(JsonSchema)]
pub struct W34_412 {
    #[serde(rename = "i1")]
    pub a: Inner1,
    #[serde(flatten)]
    pub fl: Inner1,
}
#[derive(JsonSchema)]
pub struct W34_413 {
    #[serde(flatten)]
    pub fl: Inner1,
    #[serde(rename = "shared")]
    pub q: B,
    #[serde(flatten)]
    pub fm: Inner2,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W34_414 {
    #[serde(flatten)]
    pub fl: Inner1,
    #[serde(rename = "shared")]
    pub q: B,
    #[serde(flatten)]
    pub fm: Inner2,
}
#[derive(JsonSchema)]
pub struct W36_659 {
    pub a: A,
    #[serde(flatten)]
    pub fl: NoUnit,
}
#[derive(JsonSchema)]
pub struct W31_850 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_851 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_852 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "NoUnit")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_853 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: NoUnit,
}
#[derive(JsonSchema)]
pub enum W31_854 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: NoUnit,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoUnit")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_855 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: NoUnit,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoUnit")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_856 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: NoUnit,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoUnit")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_857 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: NoUnit,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoUnit")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_858 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_859 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "NoUnit")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_860 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: NoUnit,
}
#[derive(JsonSchema)]
pub enum W31_861 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: NoUnit,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoUnit")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_862 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: NoUnit,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoUnit")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_863 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: NoUnit,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoUnit")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_864 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: NoUnit,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoUnit")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_865 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_866 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_867 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_868 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_869 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_870 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_871 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_872 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_212 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_213 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_214 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_215 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_216 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: NoUnit,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_217 {
    pub a: A,
    #[serde(flatten)]
    pub fl: NoUnit,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_218 {
    #[serde(flatten)]
    pub fl: NoUnit,
    #[serde(flatten)]
    pub fm: NoUnit,
}
#[derive(JsonSchema)]
pub struct W36_660 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<NoUnit>,
}
#[derive(JsonSchema)]
pub struct W31_873 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_874 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_875 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<NoUnit>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_876 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<NoUnit>,
}
#[derive(JsonSchema)]
pub enum W31_877 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<NoUnit>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoUnit>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_878 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<NoUnit>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoUnit>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_879 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<NoUnit>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoUnit>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_880 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<NoUnit>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoUnit>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_881 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_882 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<NoUnit>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_883 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<NoUnit>,
}
#[derive(JsonSchema)]
pub enum W31_884 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<NoUnit>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoUnit>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_885 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<NoUnit>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoUnit>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_886 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<NoUnit>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoUnit>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_887 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<NoUnit>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoUnit>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_888 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_889 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_890 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_891 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_892 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_893 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_894 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_895 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_219 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_220 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_221 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_222 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_223 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<NoUnit>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_224 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<NoUnit>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_225 {
    #[serde(flatten)]
    pub fl: Option<NoUnit>,
    #[serde(flatten)]
    pub fm: Option<NoUnit>,
}
#[derive(JsonSchema)]
pub struct W36_661 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<NoUnit>,
}
#[derive(JsonSchema)]
pub struct W36_662 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<NoUnit>>,
}
#[derive(JsonSchema)]
pub struct W36_663 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<NoUnit>>,
}
#[derive(JsonSchema)]
pub struct W36_664 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<NoUnit>>,
}
#[derive(JsonSchema)]
pub struct W36_665 {
    pub a: A,
    #[serde(flatten)]
    pub fl: NoMix,
}
#[derive(JsonSchema)]
pub struct W31_896 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_897 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_898 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "NoMix")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_899 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: NoMix,
}
#[derive(JsonSchema)]
pub enum W31_900 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: NoMix,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoMix")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_901 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: NoMix,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoMix")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_902 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: NoMix,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoMix")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_903 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: NoMix,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoMix")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_904 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_905 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "NoMix")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_906 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: NoMix,
}
#[derive(JsonSchema)]
pub enum W31_907 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: NoMix,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoMix")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_908 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: NoMix,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoMix")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_909 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: NoMix,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoMix")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_910 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: NoMix,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NoMix")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_911 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_912 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_913 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_914 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_915 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_916 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_917 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_918 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_226 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_227 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_228 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_229 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_230 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: NoMix,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_231 {
    pub a: A,
    #[serde(flatten)]
    pub fl: NoMix,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_232 {
    #[serde(flatten)]
    pub fl: NoMix,
    #[serde(flatten)]
    pub fm: NoMix,
}
#[derive(JsonSchema)]
pub struct W36_666 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<NoMix>,
}
#[derive(JsonSchema)]
pub struct W31_919 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_920 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_921 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<NoMix>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_922 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<NoMix>,
}
#[derive(JsonSchema)]
pub enum W31_923 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<NoMix>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoMix>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_924 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<NoMix>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoMix>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_925 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<NoMix>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoMix>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_926 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<NoMix>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoMix>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_927 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_928 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<NoMix>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_929 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<NoMix>,
}
#[derive(JsonSchema)]
pub enum W31_930 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<NoMix>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoMix>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_931 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<NoMix>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoMix>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_932 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<NoMix>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoMix>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_933 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<NoMix>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NoMix>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_934 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_935 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_936 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_937 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_938 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_939 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_940 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_941 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_233 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_234 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_235 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_236 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_237 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<NoMix>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_238 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<NoMix>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_239 {
    #[serde(flatten)]
    pub fl: Option<NoMix>,
    #[serde(flatten)]
    pub fm: Option<NoMix>,
}
#[derive(JsonSchema)]
pub struct W36_667 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<NoMix>,
}
#[derive(JsonSchema)]
pub struct W36_668 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<NoMix>>,
}
#[derive(JsonSchema)]
pub struct W36_669 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<NoMix>>,
}
#[derive(JsonSchema)]
pub struct W36_670 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<NoMix>>,
}
#[derive(JsonSchema)]
pub struct W36_671 {
    pub a: A,
    #[serde(flatten)]
    pub fl: SomeMix,
}
#[derive(JsonSchema)]
pub struct W31_942 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_943 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_944 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "SomeMix")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_945 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: SomeMix,
}
#[derive(JsonSchema)]
pub enum W31_946 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: SomeMix,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "SomeMix")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_947 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: SomeMix,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "SomeMix")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_948 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: SomeMix,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "SomeMix")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_949 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: SomeMix,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "SomeMix")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_950 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_951 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "SomeMix")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_952 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: SomeMix,
}
#[derive(JsonSchema)]
pub enum W31_953 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: SomeMix,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "SomeMix")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_954 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: SomeMix,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "SomeMix")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_955 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: SomeMix,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "SomeMix")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_956 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: SomeMix,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "SomeMix")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_957 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_958 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_959 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_960 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_961 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_962 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_963 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_964 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_240 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_241 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_242 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_243 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_244 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: SomeMix,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_245 {
    pub a: A,
    #[serde(flatten)]
    pub fl: SomeMix,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_246 {
    #[serde(flatten)]
    pub fl: SomeMix,
    #[serde(flatten)]
    pub fm: SomeMix,
}
#[derive(JsonSchema)]
pub struct W36_672 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<SomeMix>,
}
#[derive(JsonSchema)]
pub struct W31_965 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_966 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_967 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<SomeMix>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_968 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<SomeMix>,
}
#[derive(JsonSchema)]
pub enum W31_969 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<SomeMix>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<SomeMix>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_970 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<SomeMix>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<SomeMix>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_971 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<SomeMix>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<SomeMix>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_972 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<SomeMix>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<SomeMix>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_973 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_974 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<SomeMix>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_975 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<SomeMix>,
}
#[derive(JsonSchema)]
pub enum W31_976 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<SomeMix>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<SomeMix>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_977 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<SomeMix>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<SomeMix>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_978 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<SomeMix>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<SomeMix>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_979 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<SomeMix>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<SomeMix>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_980 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_981 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_982 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_983 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_984 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_985 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_986 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_987 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_247 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_248 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_249 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_250 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_251 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<SomeMix>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_252 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<SomeMix>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_253 {
    #[serde(flatten)]
    pub fl: Option<SomeMix>,
    #[serde(flatten)]
    pub fm: Option<SomeMix>,
}
#[derive(JsonSchema)]
pub struct W36_673 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<SomeMix>,
}
#[derive(JsonSchema)]
pub struct W36_674 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<SomeMix>>,
}
#[derive(JsonSchema)]
pub struct W36_675 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<SomeMix>>,
}
#[derive(JsonSchema)]
pub struct W36_676 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<SomeMix>>,
}
#[derive(JsonSchema)]
pub struct W36_677 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Inner1,
}
#[derive(JsonSchema)]
pub struct W31_988 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_989 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_990 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Inner1")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_991 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Inner1,
}
#[derive(JsonSchema)]
pub enum W31_992 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Inner1,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Inner1")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_993 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Inner1,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Inner1")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_994 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Inner1,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Inner1")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_995 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Inner1,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Inner1")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_996 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_997 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Inner1")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_998 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Inner1,
}
#[derive(JsonSchema)]
pub enum W31_999 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Inner1,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Inner1")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1000 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Inner1,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Inner1")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1001 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Inner1,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Inner1")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1002 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Inner1,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Inner1")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1003 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1004 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1005 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1006 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1007 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1008 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1009 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1010 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_254 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_255 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_256 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_257 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_258 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Inner1,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_259 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Inner1,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_260 {
    #[serde(flatten)]
    pub fl: Inner1,
    #[serde(flatten)]
    pub fm: Inner1,
}
#[derive(JsonSchema)]
pub struct W36_678 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Inner1>,
}
#[derive(JsonSchema)]
pub struct W31_1011 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1012 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1013 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<Inner1>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1014 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<Inner1>,
}
#[derive(JsonSchema)]
pub enum W31_1015 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Inner1>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Inner1>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1016 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Inner1>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Inner1>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1017 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Inner1>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Inner1>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1018 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Inner1>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Inner1>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1019 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1020 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<Inner1>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1021 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<Inner1>,
}
#[derive(JsonSchema)]
pub enum W31_1022 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Inner1>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Inner1>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1023 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Inner1>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Inner1>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1024 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Inner1>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Inner1>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1025 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Inner1>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Inner1>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1026 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1027 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1028 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1029 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1030 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1031 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1032 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1033 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_261 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_262 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_263 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_264 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_265 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<Inner1>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_266 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Inner1>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_267 {
    #[serde(flatten)]
    pub fl: Option<Inner1>,
    #[serde(flatten)]
    pub fm: Option<Inner1>,
}
#[derive(JsonSchema)]
pub struct W36_679 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Inner1>,
}
#[derive(JsonSchema)]
pub struct W36_680 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<Inner1>>,
}
#[derive(JsonSchema)]
pub struct W36_681 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<Inner1>>,
}
#[derive(JsonSchema)]
pub struct W36_682 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<Inner1>>,
}
#[derive(JsonSchema)]
pub struct W36_683 {
    pub a: A,
    #[serde(flatten)]
    pub fl: InnerO,
}
#[derive(JsonSchema)]
pub struct W31_1034 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1035 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1036 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "InnerO")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1037 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: InnerO,
}
#[derive(JsonSchema)]
pub enum W31_1038 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: InnerO,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "InnerO")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1039 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: InnerO,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "InnerO")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1040 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: InnerO,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "InnerO")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1041 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: InnerO,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "InnerO")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1042 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1043 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "InnerO")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1044 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: InnerO,
}
#[derive(JsonSchema)]
pub enum W31_1045 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: InnerO,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "InnerO")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1046 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: InnerO,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "InnerO")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1047 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: InnerO,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "InnerO")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1048 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: InnerO,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "InnerO")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1049 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1050 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1051 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1052 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1053 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1054 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1055 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1056 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_268 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_269 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_270 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_271 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_272 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: InnerO,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_273 {
    pub a: A,
    #[serde(flatten)]
    pub fl: InnerO,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_274 {
    #[serde(flatten)]
    pub fl: InnerO,
    #[serde(flatten)]
    pub fm: InnerO,
}
#[derive(JsonSchema)]
pub struct W36_684 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<InnerO>,
}
#[derive(JsonSchema)]
pub struct W31_1057 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1058 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1059 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<InnerO>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1060 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<InnerO>,
}
#[derive(JsonSchema)]
pub enum W31_1061 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<InnerO>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<InnerO>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1062 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<InnerO>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<InnerO>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1063 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<InnerO>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<InnerO>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1064 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<InnerO>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<InnerO>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1065 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1066 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<InnerO>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1067 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<InnerO>,
}
#[derive(JsonSchema)]
pub enum W31_1068 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<InnerO>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<InnerO>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1069 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<InnerO>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<InnerO>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1070 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<InnerO>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<InnerO>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1071 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<InnerO>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<InnerO>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1072 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1073 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1074 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1075 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1076 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1077 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1078 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1079 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_275 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_276 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_277 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_278 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_279 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<InnerO>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_280 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<InnerO>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_281 {
    #[serde(flatten)]
    pub fl: Option<InnerO>,
    #[serde(flatten)]
    pub fm: Option<InnerO>,
}
#[derive(JsonSchema)]
pub struct W36_685 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<InnerO>,
}
#[derive(JsonSchema)]
pub struct W36_686 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<InnerO>>,
}
#[derive(JsonSchema)]
pub struct W36_687 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<InnerO>>,
}
#[derive(JsonSchema)]
pub struct W36_688 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<InnerO>>,
}
#[derive(JsonSchema)]
pub struct W36_689 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Enum1,
}
#[derive(JsonSchema)]
pub struct W31_1080 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1081 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1082 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Enum1")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1083 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Enum1,
}
#[derive(JsonSchema)]
pub enum W31_1084 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Enum1,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Enum1")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1085 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Enum1,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Enum1")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1086 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Enum1,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Enum1")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1087 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Enum1,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Enum1")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1088 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1089 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Enum1")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1090 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Enum1,
}
#[derive(JsonSchema)]
pub enum W31_1091 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Enum1,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Enum1")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1092 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Enum1,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Enum1")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1093 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Enum1,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Enum1")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1094 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Enum1,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Enum1")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1095 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1096 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1097 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1098 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1099 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1100 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1101 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1102 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_282 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_283 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_284 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_285 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_286 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Enum1,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_287 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Enum1,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_288 {
    #[serde(flatten)]
    pub fl: Enum1,
    #[serde(flatten)]
    pub fm: Enum1,
}
#[derive(JsonSchema)]
pub struct W36_690 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Enum1>,
}
#[derive(JsonSchema)]
pub struct W31_1103 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1104 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1105 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<Enum1>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1106 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<Enum1>,
}
#[derive(JsonSchema)]
pub enum W31_1107 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Enum1>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Enum1>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1108 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Enum1>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Enum1>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1109 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Enum1>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Enum1>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1110 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Enum1>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Enum1>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1111 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1112 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<Enum1>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1113 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<Enum1>,
}
#[derive(JsonSchema)]
pub enum W31_1114 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Enum1>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Enum1>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1115 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Enum1>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Enum1>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1116 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Enum1>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Enum1>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1117 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Enum1>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Enum1>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1118 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1119 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1120 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1121 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1122 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1123 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1124 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1125 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_289 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_290 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_291 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_292 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_293 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<Enum1>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_294 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Enum1>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_295 {
    #[serde(flatten)]
    pub fl: Option<Enum1>,
    #[serde(flatten)]
    pub fm: Option<Enum1>,
}
#[derive(JsonSchema)]
pub struct W36_691 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Enum1>,
}
#[derive(JsonSchema)]
pub struct W36_692 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<Enum1>>,
}
#[derive(JsonSchema)]
pub struct W36_693 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<Enum1>>,
}
#[derive(JsonSchema)]
pub struct W36_694 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<Enum1>>,
}
#[derive(JsonSchema)]
pub struct W36_695 {
    pub a: A,
    #[serde(flatten)]
    pub fl: UnEnum,
}
#[derive(JsonSchema)]
pub struct W31_1126 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1127 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1128 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "UnEnum")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1129 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: UnEnum,
}
#[derive(JsonSchema)]
pub enum W31_1130 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: UnEnum,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnEnum")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1131 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: UnEnum,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnEnum")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1132 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: UnEnum,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnEnum")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1133 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: UnEnum,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnEnum")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1134 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1135 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "UnEnum")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1136 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: UnEnum,
}
#[derive(JsonSchema)]
pub enum W31_1137 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: UnEnum,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnEnum")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1138 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: UnEnum,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnEnum")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1139 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: UnEnum,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnEnum")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1140 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: UnEnum,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnEnum")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1141 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1142 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1143 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1144 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1145 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1146 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1147 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1148 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_296 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_297 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_298 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_299 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_300 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: UnEnum,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_301 {
    pub a: A,
    #[serde(flatten)]
    pub fl: UnEnum,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_302 {
    #[serde(flatten)]
    pub fl: UnEnum,
    #[serde(flatten)]
    pub fm: UnEnum,
}
#[derive(JsonSchema)]
pub struct W36_696 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<UnEnum>,
}
#[derive(JsonSchema)]
pub struct W31_1149 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1150 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1151 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<UnEnum>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1152 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<UnEnum>,
}
#[derive(JsonSchema)]
pub enum W31_1153 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<UnEnum>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnEnum>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1154 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<UnEnum>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnEnum>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1155 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<UnEnum>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnEnum>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1156 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<UnEnum>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnEnum>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1157 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1158 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<UnEnum>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1159 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<UnEnum>,
}
#[derive(JsonSchema)]
pub enum W31_1160 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<UnEnum>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnEnum>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1161 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<UnEnum>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnEnum>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1162 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<UnEnum>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnEnum>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1163 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<UnEnum>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnEnum>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1164 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1165 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1166 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1167 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1168 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1169 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1170 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1171 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_303 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_304 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_305 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_306 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_307 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<UnEnum>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_308 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<UnEnum>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_309 {
    #[serde(flatten)]
    pub fl: Option<UnEnum>,
    #[serde(flatten)]
    pub fm: Option<UnEnum>,
}
#[derive(JsonSchema)]
pub struct W36_697 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<UnEnum>,
}
#[derive(JsonSchema)]
pub struct W36_698 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<UnEnum>>,
}
#[derive(JsonSchema)]
pub struct W36_699 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<UnEnum>>,
}
#[derive(JsonSchema)]
pub struct W36_700 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<UnEnum>>,
}
#[derive(JsonSchema)]
pub struct W36_701 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Deny1,
}
#[derive(JsonSchema)]
pub struct W31_1172 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1173 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1174 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Deny1")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1175 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Deny1,
}
#[derive(JsonSchema)]
pub enum W31_1176 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Deny1,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Deny1")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1177 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Deny1,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Deny1")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1178 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Deny1,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Deny1")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1179 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Deny1,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Deny1")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1180 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1181 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Deny1")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1182 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Deny1,
}
#[derive(JsonSchema)]
pub enum W31_1183 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Deny1,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Deny1")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1184 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Deny1,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Deny1")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1185 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Deny1,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Deny1")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1186 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Deny1,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Deny1")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1187 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1188 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1189 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1190 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1191 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1192 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1193 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1194 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_310 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_311 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_312 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_313 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_314 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Deny1,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_315 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Deny1,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_316 {
    #[serde(flatten)]
    pub fl: Deny1,
    #[serde(flatten)]
    pub fm: Deny1,
}
#[derive(JsonSchema)]
pub struct W36_702 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Deny1>,
}
#[derive(JsonSchema)]
pub struct W31_1195 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1196 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1197 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<Deny1>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1198 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<Deny1>,
}
#[derive(JsonSchema)]
pub enum W31_1199 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Deny1>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Deny1>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1200 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Deny1>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Deny1>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1201 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Deny1>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Deny1>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1202 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Deny1>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Deny1>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1203 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1204 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<Deny1>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1205 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<Deny1>,
}
#[derive(JsonSchema)]
pub enum W31_1206 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Deny1>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Deny1>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1207 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Deny1>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Deny1>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1208 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Deny1>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Deny1>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1209 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Deny1>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Deny1>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1210 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1211 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1212 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1213 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1214 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1215 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1216 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1217 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_317 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_318 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_319 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_320 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_321 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<Deny1>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_322 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Deny1>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_323 {
    #[serde(flatten)]
    pub fl: Option<Deny1>,
    #[serde(flatten)]
    pub fm: Option<Deny1>,
}
#[derive(JsonSchema)]
pub struct W36_703 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Deny1>,
}
#[derive(JsonSchema)]
pub struct W36_704 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<Deny1>>,
}
#[derive(JsonSchema)]
pub struct W36_705 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<Deny1>>,
}
#[derive(JsonSchema)]
pub struct W36_706 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<Deny1>>,
}
#[derive(JsonSchema)]
pub struct W36_707 {
    pub a: A,
    #[serde(flatten)]
    pub fl: MapS,
}
#[derive(JsonSchema)]
pub struct W31_1218 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1219 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1220 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "MapS")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1221 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: MapS,
}
#[derive(JsonSchema)]
pub enum W31_1222 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: MapS,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MapS")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1223 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: MapS,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MapS")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1224 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: MapS,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MapS")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1225 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: MapS,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MapS")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1226 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1227 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "MapS")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1228 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: MapS,
}
#[derive(JsonSchema)]
pub enum W31_1229 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: MapS,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MapS")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1230 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: MapS,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MapS")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1231 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: MapS,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MapS")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1232 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: MapS,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MapS")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1233 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1234 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1235 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1236 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1237 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1238 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1239 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1240 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_324 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_325 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_326 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_327 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_328 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: MapS,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_329 {
    pub a: A,
    #[serde(flatten)]
    pub fl: MapS,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_330 {
    #[serde(flatten)]
    pub fl: MapS,
    #[serde(flatten)]
    pub fm: MapS,
}
#[derive(JsonSchema)]
pub struct W36_708 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<MapS>,
}
#[derive(JsonSchema)]
pub struct W31_1241 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1242 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1243 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<MapS>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1244 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<MapS>,
}
#[derive(JsonSchema)]
pub enum W31_1245 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<MapS>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MapS>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1246 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<MapS>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MapS>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1247 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<MapS>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MapS>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1248 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<MapS>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MapS>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1249 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1250 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<MapS>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1251 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<MapS>,
}
#[derive(JsonSchema)]
pub enum W31_1252 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<MapS>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MapS>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1253 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<MapS>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MapS>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1254 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<MapS>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MapS>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1255 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<MapS>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MapS>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1256 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1257 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1258 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1259 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1260 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1261 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1262 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1263 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_331 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_332 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_333 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_334 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_335 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<MapS>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_336 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<MapS>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_337 {
    #[serde(flatten)]
    pub fl: Option<MapS>,
    #[serde(flatten)]
    pub fm: Option<MapS>,
}
#[derive(JsonSchema)]
pub struct W36_709 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<MapS>,
}
#[derive(JsonSchema)]
pub struct W36_710 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<MapS>>,
}
#[derive(JsonSchema)]
pub struct W36_711 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<MapS>>,
}
#[derive(JsonSchema)]
pub struct W36_712 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<MapS>>,
}
#[derive(JsonSchema)]
pub struct W36_713 {
    pub a: A,
    #[serde(flatten)]
    pub fl: OneUn,
}
#[derive(JsonSchema)]
pub struct W31_1264 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1265 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1266 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "OneUn")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1267 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: OneUn,
}
#[derive(JsonSchema)]
pub enum W31_1268 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneUn,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUn")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1269 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneUn,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUn")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1270 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneUn,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUn")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1271 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneUn,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUn")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1272 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1273 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "OneUn")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1274 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: OneUn,
}
#[derive(JsonSchema)]
pub enum W31_1275 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneUn,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUn")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1276 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneUn,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUn")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1277 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneUn,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUn")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1278 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneUn,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUn")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1279 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1280 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1281 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1282 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1283 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1284 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1285 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1286 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_338 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_339 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_340 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_341 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_342 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: OneUn,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_343 {
    pub a: A,
    #[serde(flatten)]
    pub fl: OneUn,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_344 {
    #[serde(flatten)]
    pub fl: OneUn,
    #[serde(flatten)]
    pub fm: OneUn,
}
#[derive(JsonSchema)]
pub struct W36_714 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<OneUn>,
}
#[derive(JsonSchema)]
pub struct W31_1287 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1288 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1289 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<OneUn>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1290 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<OneUn>,
}
#[derive(JsonSchema)]
pub enum W31_1291 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneUn>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUn>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1292 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneUn>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUn>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1293 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneUn>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUn>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1294 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneUn>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUn>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1295 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1296 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<OneUn>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1297 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<OneUn>,
}
#[derive(JsonSchema)]
pub enum W31_1298 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneUn>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUn>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1299 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneUn>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUn>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1300 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneUn>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUn>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1301 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneUn>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUn>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1302 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1303 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1304 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1305 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1306 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1307 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1308 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1309 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_345 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_346 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_347 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_348 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_349 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<OneUn>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_350 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<OneUn>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_351 {
    #[serde(flatten)]
    pub fl: Option<OneUn>,
    #[serde(flatten)]
    pub fm: Option<OneUn>,
}
#[derive(JsonSchema)]
pub struct W36_715 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<OneUn>,
}
#[derive(JsonSchema)]
pub struct W36_716 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<OneUn>>,
}
#[derive(JsonSchema)]
pub struct W36_717 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<OneUn>>,
}
#[derive(JsonSchema)]
pub struct W36_718 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<OneUn>>,
}
#[derive(JsonSchema)]
pub struct W36_719 {
    pub a: A,
    #[serde(flatten)]
    pub fl: OneEx,
}
#[derive(JsonSchema)]
pub struct W31_1310 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1311 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1312 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "OneEx")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1313 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: OneEx,
}
#[derive(JsonSchema)]
pub enum W31_1314 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneEx,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneEx")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1315 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneEx,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneEx")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1316 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneEx,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneEx")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1317 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneEx,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneEx")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1318 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1319 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "OneEx")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1320 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: OneEx,
}
#[derive(JsonSchema)]
pub enum W31_1321 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneEx,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneEx")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1322 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneEx,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneEx")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1323 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneEx,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneEx")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1324 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneEx,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneEx")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1325 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1326 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1327 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1328 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1329 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1330 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1331 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1332 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_352 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_353 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_354 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_355 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_356 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: OneEx,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_357 {
    pub a: A,
    #[serde(flatten)]
    pub fl: OneEx,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_358 {
    #[serde(flatten)]
    pub fl: OneEx,
    #[serde(flatten)]
    pub fm: OneEx,
}
#[derive(JsonSchema)]
pub struct W36_720 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<OneEx>,
}
#[derive(JsonSchema)]
pub struct W31_1333 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1334 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1335 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<OneEx>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1336 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<OneEx>,
}
#[derive(JsonSchema)]
pub enum W31_1337 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneEx>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneEx>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1338 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneEx>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneEx>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1339 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneEx>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneEx>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1340 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneEx>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneEx>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1341 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1342 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<OneEx>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1343 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<OneEx>,
}
#[derive(JsonSchema)]
pub enum W31_1344 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneEx>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneEx>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1345 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneEx>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneEx>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1346 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneEx>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneEx>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1347 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneEx>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneEx>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1348 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1349 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1350 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1351 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1352 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1353 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1354 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1355 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_359 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_360 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_361 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_362 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_363 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<OneEx>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_364 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<OneEx>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_365 {
    #[serde(flatten)]
    pub fl: Option<OneEx>,
    #[serde(flatten)]
    pub fm: Option<OneEx>,
}
#[derive(JsonSchema)]
pub struct W36_721 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<OneEx>,
}
#[derive(JsonSchema)]
pub struct W36_722 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<OneEx>>,
}
#[derive(JsonSchema)]
pub struct W36_723 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<OneEx>>,
}
#[derive(JsonSchema)]
pub struct W36_724 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<OneEx>>,
}
#[derive(JsonSchema)]
pub struct W36_725 {
    pub a: A,
    #[serde(flatten)]
    pub fl: OneTag,
}
#[derive(JsonSchema)]
pub struct W31_1356 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1357 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1358 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "OneTag")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1359 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: OneTag,
}
#[derive(JsonSchema)]
pub enum W31_1360 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneTag,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneTag")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1361 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneTag,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneTag")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1362 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneTag,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneTag")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1363 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneTag,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneTag")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1364 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1365 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "OneTag")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1366 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: OneTag,
}
#[derive(JsonSchema)]
pub enum W31_1367 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneTag,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneTag")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1368 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneTag,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneTag")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1369 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneTag,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneTag")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1370 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneTag,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneTag")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1371 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1372 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1373 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1374 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1375 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1376 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1377 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1378 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_366 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_367 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_368 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_369 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_370 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: OneTag,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_371 {
    pub a: A,
    #[serde(flatten)]
    pub fl: OneTag,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_372 {
    #[serde(flatten)]
    pub fl: OneTag,
    #[serde(flatten)]
    pub fm: OneTag,
}
#[derive(JsonSchema)]
pub struct W36_726 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<OneTag>,
}
#[derive(JsonSchema)]
pub struct W31_1379 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1380 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1381 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<OneTag>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1382 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<OneTag>,
}
#[derive(JsonSchema)]
pub enum W31_1383 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneTag>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneTag>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1384 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneTag>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneTag>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1385 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneTag>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneTag>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1386 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneTag>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneTag>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1387 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1388 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<OneTag>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1389 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<OneTag>,
}
#[derive(JsonSchema)]
pub enum W31_1390 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneTag>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneTag>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1391 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneTag>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneTag>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1392 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneTag>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneTag>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1393 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneTag>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneTag>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1394 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1395 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1396 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1397 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1398 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1399 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1400 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1401 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_373 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_374 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_375 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_376 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_377 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<OneTag>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_378 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<OneTag>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_379 {
    #[serde(flatten)]
    pub fl: Option<OneTag>,
    #[serde(flatten)]
    pub fm: Option<OneTag>,
}
#[derive(JsonSchema)]
pub struct W36_727 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<OneTag>,
}
#[derive(JsonSchema)]
pub struct W36_728 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<OneTag>>,
}
#[derive(JsonSchema)]
pub struct W36_729 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<OneTag>>,
}
#[derive(JsonSchema)]
pub struct W36_730 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<OneTag>>,
}
#[derive(JsonSchema)]
pub struct W36_731 {
    pub a: A,
    #[serde(flatten)]
    pub fl: OneUnit,
}
#[derive(JsonSchema)]
pub struct W31_1402 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1403 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1404 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "OneUnit")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1405 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: OneUnit,
}
#[derive(JsonSchema)]
pub enum W31_1406 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneUnit,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUnit")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1407 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneUnit,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUnit")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1408 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneUnit,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUnit")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1409 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: OneUnit,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUnit")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1410 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1411 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "OneUnit")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1412 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: OneUnit,
}
#[derive(JsonSchema)]
pub enum W31_1413 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneUnit,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUnit")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1414 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneUnit,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUnit")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1415 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneUnit,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUnit")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1416 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: OneUnit,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "OneUnit")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1417 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1418 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1419 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1420 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1421 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1422 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1423 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1424 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_380 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_381 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_382 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_383 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_384 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: OneUnit,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_385 {
    pub a: A,
    #[serde(flatten)]
    pub fl: OneUnit,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_386 {
    #[serde(flatten)]
    pub fl: OneUnit,
    #[serde(flatten)]
    pub fm: OneUnit,
}
#[derive(JsonSchema)]
pub struct W36_732 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<OneUnit>,
}
#[derive(JsonSchema)]
pub struct W31_1425 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1426 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1427 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<OneUnit>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1428 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<OneUnit>,
}
#[derive(JsonSchema)]
pub enum W31_1429 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneUnit>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUnit>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1430 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneUnit>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUnit>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1431 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneUnit>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUnit>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1432 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<OneUnit>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUnit>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1433 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1434 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<OneUnit>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1435 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<OneUnit>,
}
#[derive(JsonSchema)]
pub enum W31_1436 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneUnit>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUnit>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1437 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneUnit>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUnit>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1438 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneUnit>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUnit>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1439 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<OneUnit>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<OneUnit>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1440 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1441 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1442 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1443 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1444 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1445 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1446 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1447 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_387 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_388 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_389 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_390 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_391 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<OneUnit>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_392 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<OneUnit>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_393 {
    #[serde(flatten)]
    pub fl: Option<OneUnit>,
    #[serde(flatten)]
    pub fm: Option<OneUnit>,
}
#[derive(JsonSchema)]
pub struct W36_733 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<OneUnit>,
}
#[derive(JsonSchema)]
pub struct W36_734 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<OneUnit>>,
}
#[derive(JsonSchema)]
pub struct W36_735 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<OneUnit>>,
}
#[derive(JsonSchema)]
pub struct W36_736 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<OneUnit>>,
}
#[derive(JsonSchema)]
pub struct W36_737 {
    pub a: A,
    #[serde(flatten)]
    pub fl: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W31_1448 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1449 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1450 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "UnitEnum")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1451 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: UnitEnum,
}
#[derive(JsonSchema)]
pub enum W31_1452 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: UnitEnum,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnitEnum")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1453 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: UnitEnum,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnitEnum")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1454 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: UnitEnum,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnitEnum")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1455 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: UnitEnum,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnitEnum")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1456 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1457 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "UnitEnum")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1458 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: UnitEnum,
}
#[derive(JsonSchema)]
pub enum W31_1459 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: UnitEnum,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnitEnum")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1460 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: UnitEnum,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnitEnum")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1461 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: UnitEnum,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnitEnum")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1462 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: UnitEnum,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "UnitEnum")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1463 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1464 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1465 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1466 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1467 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1468 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1469 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1470 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_394 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_395 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_396 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_397 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_398 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: UnitEnum,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_399 {
    pub a: A,
    #[serde(flatten)]
    pub fl: UnitEnum,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_400 {
    #[serde(flatten)]
    pub fl: UnitEnum,
    #[serde(flatten)]
    pub fm: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W36_738 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<UnitEnum>,
}
#[derive(JsonSchema)]
pub struct W31_1471 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1472 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1473 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<UnitEnum>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1474 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<UnitEnum>,
}
#[derive(JsonSchema)]
pub enum W31_1475 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<UnitEnum>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnitEnum>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1476 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<UnitEnum>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnitEnum>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1477 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<UnitEnum>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnitEnum>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1478 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<UnitEnum>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnitEnum>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1479 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1480 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<UnitEnum>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1481 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<UnitEnum>,
}
#[derive(JsonSchema)]
pub enum W31_1482 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<UnitEnum>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnitEnum>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1483 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<UnitEnum>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnitEnum>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1484 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<UnitEnum>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnitEnum>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1485 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<UnitEnum>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<UnitEnum>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1486 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1487 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1488 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1489 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1490 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1491 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1492 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1493 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_401 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_402 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_403 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_404 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_405 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<UnitEnum>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_406 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<UnitEnum>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_407 {
    #[serde(flatten)]
    pub fl: Option<UnitEnum>,
    #[serde(flatten)]
    pub fm: Option<UnitEnum>,
}
#[derive(JsonSchema)]
pub struct W36_739 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<UnitEnum>,
}
#[derive(JsonSchema)]
pub struct W36_740 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<UnitEnum>>,
}
#[derive(JsonSchema)]
pub struct W36_741 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<UnitEnum>>,
}
#[derive(JsonSchema)]
pub struct W36_742 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<UnitEnum>>,
}
#[derive(JsonSchema)]
pub struct W36_743 {
    pub a: A,
    #[serde(flatten)]
    pub fl: NullUn,
}
#[derive(JsonSchema)]
pub struct W31_1494 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1495 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1496 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "NullUn")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1497 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: NullUn,
}
#[derive(JsonSchema)]
pub enum W31_1498 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: NullUn,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NullUn")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1499 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: NullUn,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NullUn")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1500 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: NullUn,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NullUn")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1501 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: NullUn,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NullUn")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1502 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1503 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "NullUn")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1504 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: NullUn,
}
#[derive(JsonSchema)]
pub enum W31_1505 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: NullUn,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NullUn")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1506 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: NullUn,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NullUn")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1507 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: NullUn,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NullUn")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1508 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: NullUn,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "NullUn")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1509 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1510 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1511 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1512 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1513 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1514 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1515 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1516 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_408 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_409 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_410 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_411 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_412 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: NullUn,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_413 {
    pub a: A,
    #[serde(flatten)]
    pub fl: NullUn,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_414 {
    #[serde(flatten)]
    pub fl: NullUn,
    #[serde(flatten)]
    pub fm: NullUn,
}
#[derive(JsonSchema)]
pub struct W36_744 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<NullUn>,
}
#[derive(JsonSchema)]
pub struct W31_1517 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1518 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1519 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<NullUn>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1520 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<NullUn>,
}
#[derive(JsonSchema)]
pub enum W31_1521 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<NullUn>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NullUn>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1522 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<NullUn>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NullUn>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1523 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<NullUn>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NullUn>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1524 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<NullUn>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NullUn>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1525 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1526 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<NullUn>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1527 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<NullUn>,
}
#[derive(JsonSchema)]
pub enum W31_1528 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<NullUn>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NullUn>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1529 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<NullUn>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NullUn>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1530 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<NullUn>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NullUn>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1531 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<NullUn>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<NullUn>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1532 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1533 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1534 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1535 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1536 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1537 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1538 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1539 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_415 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_416 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_417 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_418 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_419 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<NullUn>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_420 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<NullUn>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_421 {
    #[serde(flatten)]
    pub fl: Option<NullUn>,
    #[serde(flatten)]
    pub fm: Option<NullUn>,
}
#[derive(JsonSchema)]
pub struct W36_745 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<NullUn>,
}
#[derive(JsonSchema)]
pub struct W36_746 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<NullUn>>,
}
#[derive(JsonSchema)]
pub struct W36_747 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<NullUn>>,
}
#[derive(JsonSchema)]
pub struct W36_748 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<NullUn>>,
}
#[derive(JsonSchema)]
pub struct W36_749 {
    pub a: A,
    #[serde(flatten)]
    pub fl: MixEnum,
}
#[derive(JsonSchema)]
pub struct W31_1540 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1541 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1542 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "MixEnum")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1543 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: MixEnum,
}
#[derive(JsonSchema)]
pub enum W31_1544 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: MixEnum,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MixEnum")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1545 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: MixEnum,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MixEnum")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1546 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: MixEnum,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MixEnum")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1547 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: MixEnum,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MixEnum")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1548 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1549 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "MixEnum")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1550 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: MixEnum,
}
#[derive(JsonSchema)]
pub enum W31_1551 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: MixEnum,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MixEnum")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1552 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: MixEnum,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MixEnum")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1553 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: MixEnum,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MixEnum")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1554 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: MixEnum,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "MixEnum")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1555 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1556 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1557 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1558 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1559 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1560 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1561 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1562 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_422 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_423 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_424 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_425 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_426 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: MixEnum,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_427 {
    pub a: A,
    #[serde(flatten)]
    pub fl: MixEnum,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_428 {
    #[serde(flatten)]
    pub fl: MixEnum,
    #[serde(flatten)]
    pub fm: MixEnum,
}
#[derive(JsonSchema)]
pub struct W36_750 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<MixEnum>,
}
#[derive(JsonSchema)]
pub struct W31_1563 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1564 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1565 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<MixEnum>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1566 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<MixEnum>,
}
#[derive(JsonSchema)]
pub enum W31_1567 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<MixEnum>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MixEnum>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1568 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<MixEnum>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MixEnum>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1569 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<MixEnum>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MixEnum>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1570 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<MixEnum>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MixEnum>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1571 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1572 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<MixEnum>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1573 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<MixEnum>,
}
#[derive(JsonSchema)]
pub enum W31_1574 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<MixEnum>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MixEnum>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1575 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<MixEnum>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MixEnum>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1576 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<MixEnum>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MixEnum>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1577 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<MixEnum>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<MixEnum>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1578 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1579 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1580 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1581 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1582 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1583 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1584 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1585 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_429 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_430 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_431 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_432 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_433 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<MixEnum>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_434 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<MixEnum>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_435 {
    #[serde(flatten)]
    pub fl: Option<MixEnum>,
    #[serde(flatten)]
    pub fm: Option<MixEnum>,
}
#[derive(JsonSchema)]
pub struct W36_751 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<MixEnum>,
}
#[derive(JsonSchema)]
pub struct W36_752 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<MixEnum>>,
}
#[derive(JsonSchema)]
pub struct W36_753 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<MixEnum>>,
}
#[derive(JsonSchema)]
pub struct W36_754 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<MixEnum>>,
}
#[derive(JsonSchema)]
pub struct W36_755 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Opt2,
}
#[derive(JsonSchema)]
pub struct W31_1586 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1587 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1588 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Opt2")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1589 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Opt2,
}
#[derive(JsonSchema)]
pub enum W31_1590 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Opt2,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Opt2")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1591 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Opt2,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Opt2")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1592 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Opt2,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Opt2")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1593 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Opt2,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Opt2")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1594 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1595 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Opt2")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1596 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Opt2,
}
#[derive(JsonSchema)]
pub enum W31_1597 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Opt2,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Opt2")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1598 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Opt2,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Opt2")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1599 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Opt2,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Opt2")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1600 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Opt2,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Opt2")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1601 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1602 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1603 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1604 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1605 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1606 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1607 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1608 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_436 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_437 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_438 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_439 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_440 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Opt2,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_441 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Opt2,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_442 {
    #[serde(flatten)]
    pub fl: Opt2,
    #[serde(flatten)]
    pub fm: Opt2,
}
#[derive(JsonSchema)]
pub struct W36_756 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Opt2>,
}
#[derive(JsonSchema)]
pub struct W31_1609 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1610 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1611 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<Opt2>")]
    #[serde(skip_serializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1612 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub fl: Option<Opt2>,
}
#[derive(JsonSchema)]
pub enum W31_1613 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Opt2>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Opt2>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1614 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Opt2>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Opt2>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1615 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Opt2>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Opt2>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1616 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_serializing)]
        fl: Option<Opt2>,
    },
    #[serde(skip_serializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Opt2>")]
        #[serde(skip_serializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1617 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1618 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(with = "Option<Opt2>")]
    #[serde(skip_deserializing)]
    pub fl: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1619 {
    pub a: A,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub fl: Option<Opt2>,
}
#[derive(JsonSchema)]
pub enum W31_1620 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Opt2>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Opt2>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1621 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Opt2>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Opt2>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1622 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Opt2>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Opt2>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1623 {
    S {
        a: A,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        fl: Option<Opt2>,
    },
    #[serde(skip_deserializing)]
    S2 {
        #[serde(flatten)]
        #[schemars(with = "Option<Opt2>")]
        #[serde(skip_deserializing)]
        fl: A,
    },
}
#[derive(JsonSchema)]
pub struct W31_1624 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1625 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip)]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1626 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_serializing)]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1627 {
    pub a: A,
    #[serde(flatten)]
    #[schemars(skip_deserializing)]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1628 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1629 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1630 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip)]
    #[schemars(!skip)]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1631 {
    pub a: A,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_443 {
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_444 {
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_445 {
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_446 {
    #[schemars(title = "ft")]
    pub a: Option<A>,
    #[serde(flatten)]
    #[schemars(title = "ft")]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W32_447 {
    #[serde(rename = "zz")]
    #[serde(default)]
    pub a: Option<A>,
    #[serde(flatten)]
    #[serde(rename = "zz")]
    #[serde(default)]
    pub fl: Option<Opt2>,
    pub b: B,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_448 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Opt2>,
}
#[derive(JsonSchema)]
#[serde(rename_all = "UPPERCASE")]
pub struct W32_449 {
    #[serde(flatten)]
    pub fl: Option<Opt2>,
    #[serde(flatten)]
    pub fm: Option<Opt2>,
}
#[derive(JsonSchema)]
pub struct W36_757 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Opt2>,
}
#[derive(JsonSchema)]
pub struct W36_758 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Box<Opt2>>,
}
#[derive(JsonSchema)]
pub struct W36_759 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Box<Option<Opt2>>,
}
#[derive(JsonSchema)]
pub struct W36_760 {
    pub a: A,
    #[serde(flatten)]
    pub fl: Option<Option<Opt2>>,
}
#[derive(JsonSchema)]
pub struct W31_1632 {
    #[serde(flatten)]
    #[schemars(schema_with = "sw_obj")]
    #[serde(skip)]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1633 {
    #[schemars(schema_with = "sw1")]
    #[serde(skip)]
    pub a: NoSchema,
    #[schemars(with = "B")]
    #[serde(skip)]
    pub b: NoSchema,
    #[schemars(with = "Option<B>")]
    #[serde(skip)]
    pub c: Option<A>,
}
#[derive(JsonSchema)]
pub struct W31_1634(
    #[schemars(schema_with = "sw1")]
    #[serde(skip)]
    pub NoSchema,
    #[schemars(with = "B")]
    #[serde(skip)]
    pub NoSchema,
    pub A,
);
#[derive(JsonSchema)]
pub struct W31_1635(
    #[schemars(with = "B")]
    #[serde(skip)]
    pub NoSchema,
);
#[derive(JsonSchema)]
pub enum W31_1636 {
    #[schemars(with = "B")]
    #[serde(skip)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1637 {
    #[schemars(with = "B")]
    #[serde(skip)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1638 {
    #[schemars(with = "B")]
    #[serde(skip)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1639 {
    #[schemars(with = "B")]
    #[serde(skip)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
pub struct W31_1640 {
    #[serde(flatten)]
    #[schemars(schema_with = "sw_obj")]
    #[serde(skip_serializing)]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1641 {
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing)]
    pub a: NoSchema,
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    pub b: NoSchema,
    #[schemars(with = "Option<B>")]
    #[serde(skip_serializing)]
    pub c: Option<A>,
}
#[derive(JsonSchema)]
pub struct W31_1642(
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing)]
    pub NoSchema,
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    pub NoSchema,
    pub A,
);
#[derive(JsonSchema)]
pub struct W31_1643(
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    pub NoSchema,
);
#[derive(JsonSchema)]
pub enum W31_1644 {
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip_serializing)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1645 {
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip_serializing)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1646 {
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip_serializing)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1647 {
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip_serializing)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
pub struct W31_1648 {
    #[serde(flatten)]
    #[schemars(schema_with = "sw_obj")]
    #[serde(skip_deserializing)]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1649 {
    #[schemars(schema_with = "sw1")]
    #[serde(skip_deserializing)]
    pub a: NoSchema,
    #[schemars(with = "B")]
    #[serde(skip_deserializing)]
    pub b: NoSchema,
    #[schemars(with = "Option<B>")]
    #[serde(skip_deserializing)]
    pub c: Option<A>,
}
#[derive(JsonSchema)]
pub struct W31_1650(
    #[schemars(schema_with = "sw1")]
    #[serde(skip_deserializing)]
    pub NoSchema,
    #[schemars(with = "B")]
    #[serde(skip_deserializing)]
    pub NoSchema,
    pub A,
);
#[derive(JsonSchema)]
pub struct W31_1651(
    #[schemars(with = "B")]
    #[serde(skip_deserializing)]
    pub NoSchema,
);
#[derive(JsonSchema)]
pub enum W31_1652 {
    #[schemars(with = "B")]
    #[serde(skip_deserializing)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip_deserializing)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip_deserializing)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1653 {
    #[schemars(with = "B")]
    #[serde(skip_deserializing)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip_deserializing)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip_deserializing)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1654 {
    #[schemars(with = "B")]
    #[serde(skip_deserializing)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip_deserializing)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip_deserializing)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1655 {
    #[schemars(with = "B")]
    #[serde(skip_deserializing)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip_deserializing)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip_deserializing)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
pub struct W31_1656 {
    #[serde(flatten)]
    #[schemars(schema_with = "sw_obj")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub a: A,
    pub b: B,
}
#[derive(JsonSchema)]
pub struct W31_1657 {
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub a: NoSchema,
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub b: NoSchema,
    #[schemars(with = "Option<B>")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub c: Option<A>,
}
#[derive(JsonSchema)]
pub struct W31_1658(
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub NoSchema,
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub NoSchema,
    pub A,
);
#[derive(JsonSchema)]
pub struct W31_1659(
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub NoSchema,
);
#[derive(JsonSchema)]
pub enum W31_1660 {
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1661 {
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1662 {
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1663 {
    #[schemars(with = "B")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Va(
        NoSchema,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Vb(
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        a: NoSchema,
        b: B,
    },
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_127 {
    #[schemars(with = "B")]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_128(
    #[schemars(with = "B")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_129(
    #[schemars(with = "B")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_130(
    /// # Tt
    /// d
    #[schemars(with = "B")]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_131 {
    /// fd
    #[schemars(with = "B")]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(with = "B")]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(with = "B")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_132 {
    /// vd
    #[schemars(with = "B")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "B")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_133 {
    /// vd
    #[schemars(with = "B")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "B")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_134 {
    /// vd
    #[schemars(with = "B")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "B")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_135 {
    /// vd
    #[schemars(with = "B")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "B")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_136 {
    #[schemars(with = "Option<A>")]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_137(
    #[schemars(with = "Option<A>")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_138(
    #[schemars(with = "Option<A>")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_139(
    /// # Tt
    /// d
    #[schemars(with = "Option<A>")]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_140 {
    /// fd
    #[schemars(with = "Option<A>")]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(with = "Option<A>")]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(with = "Option<A>")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_141 {
    /// vd
    #[schemars(with = "Option<A>")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_142 {
    /// vd
    #[schemars(with = "Option<A>")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_143 {
    /// vd
    #[schemars(with = "Option<A>")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_144 {
    /// vd
    #[schemars(with = "Option<A>")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_145 {
    #[schemars(with = "Refd")]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_146(
    #[schemars(with = "Refd")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_147(
    #[schemars(with = "Refd")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_148(
    /// # Tt
    /// d
    #[schemars(with = "Refd")]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_149 {
    /// fd
    #[schemars(with = "Refd")]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(with = "Refd")]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(with = "Refd")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_150 {
    /// vd
    #[schemars(with = "Refd")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_151 {
    /// vd
    #[schemars(with = "Refd")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_152 {
    /// vd
    #[schemars(with = "Refd")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_153 {
    /// vd
    #[schemars(with = "Refd")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_154 {
    #[schemars(schema_with = "sw1")]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_155(
    #[schemars(schema_with = "sw1")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_156(
    #[schemars(schema_with = "sw1")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_157(
    /// # Tt
    /// d
    #[schemars(schema_with = "sw1")]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_158 {
    /// fd
    #[schemars(schema_with = "sw1")]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(schema_with = "sw1")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_159 {
    /// vd
    #[schemars(schema_with = "sw1")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_160 {
    /// vd
    #[schemars(schema_with = "sw1")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_161 {
    /// vd
    #[schemars(schema_with = "sw1")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_162 {
    /// vd
    #[schemars(schema_with = "sw1")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_163 {
    #[schemars(schema_with = "sw_true")]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_164(
    #[schemars(schema_with = "sw_true")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_165(
    #[schemars(schema_with = "sw_true")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_166(
    /// # Tt
    /// d
    #[schemars(schema_with = "sw_true")]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_167 {
    /// fd
    #[schemars(schema_with = "sw_true")]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(schema_with = "sw_true")]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(schema_with = "sw_true")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_168 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_169 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_170 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_171 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_172 {
    #[schemars(with = "B")]
    #[schemars(title = "T1")]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_173(
    #[schemars(with = "B")]
    #[schemars(title = "T1")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
#[schemars(title = "T1")]
pub struct W48_174(
    #[schemars(with = "B")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_175(
    /// # Tt
    /// d
    #[schemars(with = "B")]
    #[schemars(title = "T1")]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_176 {
    /// fd
    #[schemars(with = "B")]
    #[schemars(title = "T1")]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(with = "B")]
    #[schemars(title = "T1")]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(with = "B")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_177 {
    /// vd
    #[schemars(with = "B")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(with = "B")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_178 {
    /// vd
    #[schemars(with = "B")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(with = "B")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_179 {
    /// vd
    #[schemars(with = "B")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(with = "B")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_180 {
    /// vd
    #[schemars(with = "B")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(with = "B")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_181 {
    #[schemars(with = "Option<A>")]
    #[schemars(title = "T1")]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_182(
    #[schemars(with = "Option<A>")]
    #[schemars(title = "T1")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
#[schemars(title = "T1")]
pub struct W48_183(
    #[schemars(with = "Option<A>")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_184(
    /// # Tt
    /// d
    #[schemars(with = "Option<A>")]
    #[schemars(title = "T1")]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_185 {
    /// fd
    #[schemars(with = "Option<A>")]
    #[schemars(title = "T1")]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(with = "Option<A>")]
    #[schemars(title = "T1")]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(with = "Option<A>")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_186 {
    /// vd
    #[schemars(with = "Option<A>")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_187 {
    /// vd
    #[schemars(with = "Option<A>")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_188 {
    /// vd
    #[schemars(with = "Option<A>")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_189 {
    /// vd
    #[schemars(with = "Option<A>")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_190 {
    #[schemars(with = "Refd")]
    #[schemars(title = "T1")]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_191(
    #[schemars(with = "Refd")]
    #[schemars(title = "T1")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
#[schemars(title = "T1")]
pub struct W48_192(
    #[schemars(with = "Refd")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_193(
    /// # Tt
    /// d
    #[schemars(with = "Refd")]
    #[schemars(title = "T1")]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_194 {
    /// fd
    #[schemars(with = "Refd")]
    #[schemars(title = "T1")]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(with = "Refd")]
    #[schemars(title = "T1")]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(with = "Refd")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_195 {
    /// vd
    #[schemars(with = "Refd")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_196 {
    /// vd
    #[schemars(with = "Refd")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_197 {
    /// vd
    #[schemars(with = "Refd")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_198 {
    /// vd
    #[schemars(with = "Refd")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_199 {
    #[schemars(schema_with = "sw1")]
    #[schemars(title = "T1")]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_200(
    #[schemars(schema_with = "sw1")]
    #[schemars(title = "T1")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
#[schemars(title = "T1")]
pub struct W48_201(
    #[schemars(schema_with = "sw1")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_202(
    /// # Tt
    /// d
    #[schemars(schema_with = "sw1")]
    #[schemars(title = "T1")]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_203 {
    /// fd
    #[schemars(schema_with = "sw1")]
    #[schemars(title = "T1")]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(schema_with = "sw1")]
    #[schemars(title = "T1")]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(schema_with = "sw1")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_204 {
    /// vd
    #[schemars(schema_with = "sw1")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_205 {
    /// vd
    #[schemars(schema_with = "sw1")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_206 {
    /// vd
    #[schemars(schema_with = "sw1")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_207 {
    /// vd
    #[schemars(schema_with = "sw1")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_208 {
    #[schemars(schema_with = "sw_true")]
    #[schemars(title = "T1")]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_209(
    #[schemars(schema_with = "sw_true")]
    #[schemars(title = "T1")]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
#[schemars(title = "T1")]
pub struct W48_210(
    #[schemars(schema_with = "sw_true")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_211(
    /// # Tt
    /// d
    #[schemars(schema_with = "sw_true")]
    #[schemars(title = "T1")]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_212 {
    /// fd
    #[schemars(schema_with = "sw_true")]
    #[schemars(title = "T1")]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(schema_with = "sw_true")]
    #[schemars(title = "T1")]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(schema_with = "sw_true")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_213 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_214 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_215 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_216 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    #[schemars(title = "T1")]
    Va(
        NoSchema,
    ),
    #[schemars(title = "T1")]
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        #[schemars(title = "T1")]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        #[schemars(title = "T1")]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_217 {
    #[schemars(with = "B")]
    #[schemars(length(min = 1))]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_218(
    #[schemars(with = "B")]
    #[schemars(length(min = 1))]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_219(
    #[schemars(with = "B")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_220(
    /// # Tt
    /// d
    #[schemars(with = "B")]
    #[schemars(length(min = 1))]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_221 {
    /// fd
    #[schemars(with = "B")]
    #[schemars(length(min = 1))]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(with = "B")]
    #[schemars(length(min = 1))]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(with = "B")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_222 {
    /// vd
    #[schemars(with = "B")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "B")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_223 {
    /// vd
    #[schemars(with = "B")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "B")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_224 {
    /// vd
    #[schemars(with = "B")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "B")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_225 {
    /// vd
    #[schemars(with = "B")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "B")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_226 {
    #[schemars(with = "Option<A>")]
    #[schemars(length(min = 1))]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_227(
    #[schemars(with = "Option<A>")]
    #[schemars(length(min = 1))]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_228(
    #[schemars(with = "Option<A>")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_229(
    /// # Tt
    /// d
    #[schemars(with = "Option<A>")]
    #[schemars(length(min = 1))]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_230 {
    /// fd
    #[schemars(with = "Option<A>")]
    #[schemars(length(min = 1))]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(with = "Option<A>")]
    #[schemars(length(min = 1))]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(with = "Option<A>")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_231 {
    /// vd
    #[schemars(with = "Option<A>")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_232 {
    /// vd
    #[schemars(with = "Option<A>")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_233 {
    /// vd
    #[schemars(with = "Option<A>")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_234 {
    /// vd
    #[schemars(with = "Option<A>")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_235 {
    #[schemars(with = "Refd")]
    #[schemars(length(min = 1))]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_236(
    #[schemars(with = "Refd")]
    #[schemars(length(min = 1))]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_237(
    #[schemars(with = "Refd")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_238(
    /// # Tt
    /// d
    #[schemars(with = "Refd")]
    #[schemars(length(min = 1))]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_239 {
    /// fd
    #[schemars(with = "Refd")]
    #[schemars(length(min = 1))]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(with = "Refd")]
    #[schemars(length(min = 1))]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(with = "Refd")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_240 {
    /// vd
    #[schemars(with = "Refd")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_241 {
    /// vd
    #[schemars(with = "Refd")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_242 {
    /// vd
    #[schemars(with = "Refd")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_243 {
    /// vd
    #[schemars(with = "Refd")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_244 {
    #[schemars(schema_with = "sw1")]
    #[schemars(length(min = 1))]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_245(
    #[schemars(schema_with = "sw1")]
    #[schemars(length(min = 1))]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_246(
    #[schemars(schema_with = "sw1")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_247(
    /// # Tt
    /// d
    #[schemars(schema_with = "sw1")]
    #[schemars(length(min = 1))]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_248 {
    /// fd
    #[schemars(schema_with = "sw1")]
    #[schemars(length(min = 1))]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(schema_with = "sw1")]
    #[schemars(length(min = 1))]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(schema_with = "sw1")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_249 {
    /// vd
    #[schemars(schema_with = "sw1")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_250 {
    /// vd
    #[schemars(schema_with = "sw1")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_251 {
    /// vd
    #[schemars(schema_with = "sw1")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_252 {
    /// vd
    #[schemars(schema_with = "sw1")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_253 {
    #[schemars(schema_with = "sw_true")]
    #[schemars(length(min = 1))]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_254(
    #[schemars(schema_with = "sw_true")]
    #[schemars(length(min = 1))]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_255(
    #[schemars(schema_with = "sw_true")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_256(
    /// # Tt
    /// d
    #[schemars(schema_with = "sw_true")]
    #[schemars(length(min = 1))]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_257 {
    /// fd
    #[schemars(schema_with = "sw_true")]
    #[schemars(length(min = 1))]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(schema_with = "sw_true")]
    #[schemars(length(min = 1))]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(schema_with = "sw_true")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_258 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_259 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_260 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_261 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    Va(
        NoSchema,
    ),
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        #[schemars(length(min = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        #[schemars(length(min = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_262 {
    #[schemars(with = "B")]
    #[schemars(extend("x-a" = 1))]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_263(
    #[schemars(with = "B")]
    #[schemars(extend("x-a" = 1))]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
#[schemars(extend("x-a" = 1))]
pub struct W48_264(
    #[schemars(with = "B")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_265(
    /// # Tt
    /// d
    #[schemars(with = "B")]
    #[schemars(extend("x-a" = 1))]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_266 {
    /// fd
    #[schemars(with = "B")]
    #[schemars(extend("x-a" = 1))]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(with = "B")]
    #[schemars(extend("x-a" = 1))]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(with = "B")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_267 {
    /// vd
    #[schemars(with = "B")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(with = "B")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_268 {
    /// vd
    #[schemars(with = "B")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(with = "B")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_269 {
    /// vd
    #[schemars(with = "B")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(with = "B")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_270 {
    /// vd
    #[schemars(with = "B")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(with = "B")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "B")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(with = "B")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_271 {
    #[schemars(with = "Option<A>")]
    #[schemars(extend("x-a" = 1))]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_272(
    #[schemars(with = "Option<A>")]
    #[schemars(extend("x-a" = 1))]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
#[schemars(extend("x-a" = 1))]
pub struct W48_273(
    #[schemars(with = "Option<A>")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_274(
    /// # Tt
    /// d
    #[schemars(with = "Option<A>")]
    #[schemars(extend("x-a" = 1))]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_275 {
    /// fd
    #[schemars(with = "Option<A>")]
    #[schemars(extend("x-a" = 1))]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(with = "Option<A>")]
    #[schemars(extend("x-a" = 1))]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(with = "Option<A>")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_276 {
    /// vd
    #[schemars(with = "Option<A>")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_277 {
    /// vd
    #[schemars(with = "Option<A>")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_278 {
    /// vd
    #[schemars(with = "Option<A>")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_279 {
    /// vd
    #[schemars(with = "Option<A>")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(with = "Option<A>")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Option<A>")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Option<A>")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_280 {
    #[schemars(with = "Refd")]
    #[schemars(extend("x-a" = 1))]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_281(
    #[schemars(with = "Refd")]
    #[schemars(extend("x-a" = 1))]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
#[schemars(extend("x-a" = 1))]
pub struct W48_282(
    #[schemars(with = "Refd")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_283(
    /// # Tt
    /// d
    #[schemars(with = "Refd")]
    #[schemars(extend("x-a" = 1))]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_284 {
    /// fd
    #[schemars(with = "Refd")]
    #[schemars(extend("x-a" = 1))]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(with = "Refd")]
    #[schemars(extend("x-a" = 1))]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(with = "Refd")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_285 {
    /// vd
    #[schemars(with = "Refd")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_286 {
    /// vd
    #[schemars(with = "Refd")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_287 {
    /// vd
    #[schemars(with = "Refd")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_288 {
    /// vd
    #[schemars(with = "Refd")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(with = "Refd")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(with = "Refd")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(with = "Refd")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_289 {
    #[schemars(schema_with = "sw1")]
    #[schemars(extend("x-a" = 1))]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_290(
    #[schemars(schema_with = "sw1")]
    #[schemars(extend("x-a" = 1))]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
#[schemars(extend("x-a" = 1))]
pub struct W48_291(
    #[schemars(schema_with = "sw1")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_292(
    /// # Tt
    /// d
    #[schemars(schema_with = "sw1")]
    #[schemars(extend("x-a" = 1))]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_293 {
    /// fd
    #[schemars(schema_with = "sw1")]
    #[schemars(extend("x-a" = 1))]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(schema_with = "sw1")]
    #[schemars(extend("x-a" = 1))]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(schema_with = "sw1")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_294 {
    /// vd
    #[schemars(schema_with = "sw1")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_295 {
    /// vd
    #[schemars(schema_with = "sw1")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_296 {
    /// vd
    #[schemars(schema_with = "sw1")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_297 {
    /// vd
    #[schemars(schema_with = "sw1")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(schema_with = "sw1")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw1")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw1")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W48_298 {
    #[schemars(schema_with = "sw_true")]
    #[schemars(extend("x-a" = 1))]
    pub a: NoSchema,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W48_299(
    #[schemars(schema_with = "sw_true")]
    #[schemars(extend("x-a" = 1))]
    pub NoSchema,
);
#[derive(JsonSchema)]
#[schemars(transparent)]
#[schemars(extend("x-a" = 1))]
pub struct W48_300(
    #[schemars(schema_with = "sw_true")]
    pub NoSchema,
);
#[derive(JsonSchema)]
/// od
pub struct W48_301(
    /// # Tt
    /// d
    #[schemars(schema_with = "sw_true")]
    #[schemars(extend("x-a" = 1))]
    pub NoSchema,
);
#[derive(JsonSchema, Default)]
pub struct W48_302 {
    /// fd
    #[schemars(schema_with = "sw_true")]
    #[schemars(extend("x-a" = 1))]
    #[serde(default)]
    pub a: NoSchema,
    #[schemars(schema_with = "sw_true")]
    #[schemars(extend("x-a" = 1))]
    #[serde(skip_serializing_if = "sif")]
    pub b: NoSchema,
    #[schemars(schema_with = "sw_true")]
    #[serde(rename = "cc")]
    pub c: NoSchema,
}
#[derive(JsonSchema)]
pub enum W48_303 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W48_304 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W48_305 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W48_306 {
    /// vd
    #[schemars(schema_with = "sw_true")]
    #[schemars(extend("x-a" = 1))]
    Va(
        NoSchema,
    ),
    #[schemars(extend("x-a" = 1))]
    Vb(
        /// fd
        #[schemars(schema_with = "sw_true")]
        #[schemars(extend("x-a" = 1))]
        NoSchema,
    ),
    Vc {
        #[schemars(schema_with = "sw_true")]
        #[schemars(extend("x-a" = 1))]
        a: NoSchema,
    },
    #[schemars(schema_with = "sw_true")]
    Vd,
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(tag = "tg")]
#[schemars(extend("title" = "Xt"))]
#[schemars(rename_all(serialize = "lowercase", deserialize = "SCREAMING-KEBAB-CASE"))]
#[schemars(rename_all_fields(serialize = "SCREAMING-KEBAB-CASE"))]
pub enum W31_1664 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
    #[schemars(extend("x-r" = [1]))]
    X1Y2 {
        /// Doc r.
        #[deprecated]
        #[schemars(rename = "rn1")]
        #[schemars(skip_deserializing)]
        #[schemars(range(min = 2))]
        #[serde(skip_serializing)]
        a: Refd,
        /// Doc r.
        #[deprecated]
        #[schemars(skip)]
        #[schemars(rename = "type2")]
        #[validate(length(max = 8))]
        x1_y2: Box<A>,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(tag = "tg")]
#[serde(rename_all(serialize = "camelCase", deserialize = "SCREAMING-KEBAB-CASE"))]
#[serde(rename_all_fields = "lowercase")]
pub enum W31_1665 {
    /// Doc r.
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[serde(rename_all(serialize = "lowercase", deserialize = "PascalCase"))]
    #[schemars(title = "")]
    Foo_Bar {

    },
    #[serde(skip)]
    URLPart {
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        #[schemars(rename = "type1")]
        #[schemars(transform = tr1)]
        #[garde(length(equal = 3))]
        _lead: Box<Option<B>>,
        a: A,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W32_450 {
    Zz {
        #[schemars(description = "Rd")]
        #[schemars(default)]
        r#type: Refd,
    },
    FooBarBaz {
        #[schemars(with = "Inner1")]
        zz: Refd,
    },
}
#[derive(JsonSchema)]
#[schemars(example = 8)]
#[serde(rename_all(serialize = "kebab-case"))]
pub struct W32_451 {
    #[serde(flatten)]
    pub foo_bar: Deny1,
    /// Doc r.
    #[schemars(title = "Rt")]
    pub w2: bool,
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "SCREAMING-KEBAB-CASE"))]
pub struct W31_1666 {
    #[schemars(default)]
    #[schemars(flatten)]
    pub w2: MapS,
    #[schemars(extend("type" = "null"))]
    pub trail_: B,
    #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub r#type: u32,
    #[serde(skip_serializing)]
    #[schemars(default)]
    #[serde(flatten)]
    pub a: UnitEnum,
    #[serde(default)]
    #[serde(flatten)]
    pub _lead: NoMix,
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
pub enum W32_452 {
    URLPart(
        #[garde(inner(range(max = 5)))]
        Refd,
    ),
    #[deprecated]
    #[schemars(rename_all = "lowercase")]
    #[schemars(extend("title" = "Xt"))]
    Zz {
        #[serde(rename = "R n1")]
        #[schemars(flatten)]
        a: Opt2,
        /// # Rt
        ///
        /// body
        foo_bar: Box<A>,
        #[serde(rename = "R n2")]
        #[schemars(transform = tr1)]
        q: Refd,
    },
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[schemars(title = "Rt")]
#[schemars(rename_all_fields = "SCREAMING-KEBAB-CASE")]
pub enum W31_1667 {
    #[schemars(example = 8)]
    Foo_Bar(
        /// # Only
        #[schemars(email)]
        #[schemars(description = "Rd")]
        #[serde(skip)]
        A,
        #[schemars(extend("title" = "Xt"))]
        B,
        #[schemars(extend("title" = "Xt"))]
        #[schemars(skip_serializing)]
        Option<String>,
    ),
    /// Doc r.
    FooBar(
        Option<B>,
        TT,
        #[validate(url)]
        D,
    ),
}
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum W31_1668 {
    FooBar {
        #[serde(skip_serializing)]
        #[serde(flatten)]
        #[schemars(skip_deserializing)]
        #[schemars(skip_serializing_if = "sif")]
        zz: Inner1,
    },
    /// Doc r.
    URLPart,
    #[serde(skip_deserializing)]
    #[schemars(rename = "type1")]
    Q(
        /// # Only
        #[serde(skip_serializing)]
        Refd,
        #[schemars(email)]
        TT,
        #[serde(skip_serializing)]
        #[validate(url)]
        #[schemars(extend("title" = "Xt"))]
        #[schemars(!skip_serializing)]
        InlineS,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(rename_all = "kebab-case")]
#[serde(deny_unknown_fields)]
pub enum W32_453 {
    /// Doc r.
    #[schemars(rename_all = "snake_case")]
    #[schemars(title = "Rt")]
    FooBar {

    },
    /// # Rt
    ///
    /// body
    #[schemars(rename = "vn2")]
    #[schemars(extend("x-r" = [1]))]
    X1Y2,
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    #[serde(untagged)]
    URLPart(
        /// # Rt
        ///
        /// body
        #[schemars(length(min = 1))]
        Refd,
    ),
}
#[derive(JsonSchema)]
#[schemars(transform = tr1)]
pub struct W32_454 {
    /// # Rt
    ///
    /// body
    #[schemars(description = "Rd")]
    pub ab: Vec<String>,
}
#[derive(JsonSchema, Default)]
#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
#[serde(deny_unknown_fields)]
#[serde(default)]
pub struct W32_455 {
    /// Doc r.
    #[schemars(rename = "rn1")]
    #[validate(url)]
    #[schemars(extend("readOnly" = false))]
    pub q: A,
    #[schemars(email)]
    #[schemars(schema_with = "sw1")]
    pub x1_y2: Box<Option<B>>,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(transform = tr1)]
#[serde(rename_all = "PascalCase")]
#[serde(deny_unknown_fields)]
pub enum W31_1669 {
    /// # Rt
    ///
    /// body
    W2(
        #[schemars(title = "")]
        Box<A>,
        /// Doc r.
        #[validate(range(min = 1, max = 9))]
        #[schemars(schema_with = "sw1")]
        Option<B>,
        #[schemars(contains("c.c"))]
        #[schemars(extend("readOnly" = false))]
        InlineS,
    ),
    #[deprecated]
    #[schemars(skip_deserializing)]
    URLPart,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(transform = tr1)]
#[schemars(rename_all_fields = "camelCase")]
pub enum W32_456 {
    /// Doc r.
    Q,
    #[schemars(rename = "vn1")]
    #[serde(untagged)]
    X1Y2 {

    },
    #[serde(untagged)]
    Zz,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W32_457(
    #[schemars(required)]
    #[schemars(extend("type" = "null"))]
    pub Option<u32>,
);
#[derive(JsonSchema)]
/// # Only
pub enum W31_1670 {
    #[schemars(skip)]
    X1Y2(
        #[validate(length(max = 8))]
        A,
        #[garde(ipv4)]
        Refd,
        #[schemars(skip_deserializing)]
        Option<A>,
    ),
    /// # Only
    #[deprecated]
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    Q(
        /// # Rt
        ///
        /// body
        #[schemars(regex(pattern = "^r"))]
        C,
    ),
    #[schemars(skip_deserializing)]
    #[serde(untagged)]
    Ab(
        Option<B>,
        #[schemars(regex(pattern = "^r"))]
        #[schemars(skip)]
        #[schemars(with = "String")]
        Inner1,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W32_458(
    #[garde(ipv4)]
    #[schemars(title = "Rt")]
    #[schemars(inner(length(min = 1)))]
    pub String,
);
#[derive(JsonSchema)]
#[schemars(rename_all_fields(serialize = "lowercase", deserialize = "SCREAMING-KEBAB-CASE"))]
pub enum W31_1671 {
    /// Doc r.
    A {
        #[serde(flatten)]
        #[serde(rename = "type1")]
        x1_y2: MapS,
    },
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    FooBarBaz,
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
pub enum W31_1672 {
    /// # Only
    #[serde(untagged)]
    A {
        #[serde(default)]
        #[garde(inner(range(max = 5)))]
        _lead: Option<A>,
    },
    /// # Rt
    ///
    /// body
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[serde(untagged)]
    #[schemars(transform = tr1)]
    X1Y2,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(extend("title" = "Xt"))]
pub struct W32_459 {
    #[schemars(inner(length(min = 1)))]
    #[schemars(extend("readOnly" = false))]
    #[schemars(rename = "type1")]
    pub ab: bool,
    pub _lead: MultiT,
    /// # Only
    #[schemars(extend("readOnly" = false))]
    #[serde(default)]
    pub URL_part: C,
    #[schemars(with = "Inner1")]
    #[schemars(flatten)]
    pub zz: Opt2,
    pub foo_bar_baz: Inner1,
}
#[derive(JsonSchema)]
#[schemars(title = "Rt")]
pub struct W31_1673(
    #[schemars(skip_serializing)]
    #[schemars(title = "Rt")]
    pub TT,
    #[deprecated]
    pub Option<String>,
    /// # Only
    #[schemars(with = "Refd")]
    pub C,
    #[schemars(!skip_serializing)]
    #[serde(skip_serializing)]
    #[schemars(extend("title" = "Xt"))]
    #[schemars(with = "Refd")]
    #[schemars(email)]
    pub D,
);
#[derive(JsonSchema)]
/// # Only
#[schemars(rename_all_fields(serialize = "kebab-case"))]
pub enum W31_1674 {
    /// # Rt
    ///
    /// body
    URLPart {

    },
    #[serde(untagged)]
    Foo_Bar(
        /// # Only
        Box<A>,
    ),
    /// Doc r.
    #[schemars(with = "B")]
    #[serde(untagged)]
    FooBar(
        #[garde(length(equal = 3))]
        #[schemars(example = 8)]
        Option<A>,
        #[validate(length(max = 8))]
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        #[schemars(with = "String")]
        u32,
        /// # Rt
        ///
        /// body
        #[schemars(with = "Inner1")]
        Vec<A>,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(title = "Rt")]
pub enum W31_1675 {
    /// # Rt
    ///
    /// body
    Q {
        #[serde(flatten)]
        trail_: Deny1,
        #[deprecated]
        a: Refd,
    },
    #[serde(rename = "vn1")]
    #[serde(rename_all = "snake_case")]
    #[schemars(transform = tr1)]
    W2 {
        #[schemars(skip_serializing_if = "sif")]
        URL_part: bool,
    },
    #[schemars(example = 8)]
    Ab {

    },
    /// Doc r.
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[schemars(rename_all(serialize = "PascalCase"))]
    #[schemars(title = "")]
    Foo_Bar {
        #[serde(default)]
        dbl__us: B,
        #[serde(default)]
        a: Vec<String>,
    },
    /// Doc r.
    #[schemars(skip)]
    #[serde(untagged)]
    X1Y2(
        #[schemars(with = "Refd")]
        Option<u32>,
    ),
}
#[derive(JsonSchema)]
pub struct W32_460(
    /// # Only
    #[schemars(with = "Option<A>")]
    #[schemars(extend("readOnly" = false))]
    pub C,
    /// # Only
    pub TT,
);
#[derive(JsonSchema)]
/// Doc r.
#[serde(untagged)]
#[schemars(transform = tr1)]
#[schemars(rename_all_fields(serialize = "snake_case", deserialize = "snake_case"))]
pub enum W32_461 {
    #[serde(rename = "type1")]
    #[schemars(rename_all = "kebab-case")]
    FooBarBaz {

    },
    #[schemars(example = 8)]
    URLPart {
        #[schemars(flatten)]
        _lead: FF,
        /// # Only
        #[schemars(extend("x-r" = [1]))]
        foo_bar_baz: u32,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct W32_462 {
    #[serde(flatten)]
    pub zz: Option<Inner1>,
    #[deprecated]
    #[schemars(transform = tr1)]
    pub _lead: u32,
    #[serde(flatten)]
    pub ab: A,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W32_463 {
    /// # Rt
    ///
    /// body
    #[serde(skip_serializing_if = "sif")]
    #[schemars(extend("type" = "null"))]
    #[schemars(rename = "R n1")]
    pub URL_part: D,
    #[schemars(flatten)]
    #[schemars(default)]
    pub dbl__us: Refd,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(extend("title" = "Xt"))]
pub struct W32_464(
    /// Doc r.
    #[schemars(with = "B")]
    pub Inner1,
);
#[derive(JsonSchema, Default)]
/// # Rt
///
/// body
#[serde(default)]
pub struct W32_465 {
    #[serde(default)]
    pub q: Refd,
    #[schemars(with = "Inner1")]
    #[serde(flatten)]
    #[schemars(default)]
    pub zz: UnitEnum,
}
#[derive(JsonSchema)]
pub struct W32_466(
    pub C,
    /// # Rt
    ///
    /// body
    #[schemars(schema_with = "sup::sw2")]
    pub Option<B>,
);
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1676 {
    /// # Only
    #[schemars(with = "B")]
    A {
        #[schemars(schema_with = "sup::sw2")]
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        dbl__us: TagEnum,
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        w2: Option<Refd>,
        #[serde(skip_deserializing)]
        #[schemars(rename = "zz91")]
        #[serde(flatten)]
        zz: Deny1,
    },
    /// # Only
    FooBarBaz,
    /// Doc r.
    Q {

    },
    /// Doc r.
    #[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
    URLPart {
        #[serde(skip)]
        trail_: TT,
        /// # Rt
        ///
        /// body
        #[schemars(schema_with = "sw_obj")]
        #[schemars(skip_serializing_if = "sif")]
        #[validate(length(max = 8))]
        URL_part: TT,
    },
    #[schemars(rename = "type2")]
    #[schemars(schema_with = "sw_obj")]
    #[serde(untagged)]
    FooBar {

    },
}
#[derive(JsonSchema)]
#[schemars(title = "Rt")]
pub struct W32_467(
    #[garde(ipv4)]
    pub Vec<String>,
    /// # Rt
    ///
    /// body
    #[garde(ipv4)]
    #[schemars(with = "Inner1")]
    pub A,
    /// # Only
    pub MultiT,
    pub u32,
);
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(title = "Rt")]
#[schemars(rename_all_fields(serialize = "SCREAMING_SNAKE_CASE", deserialize = "SCREAMING-KEBAB-CASE"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1677 {
    W2 {
        #[deprecated]
        #[schemars(with = "String")]
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        ab: Refd,
        #[schemars(extend("x-r" = [1]))]
        #[garde(inner(range(max = 5)))]
        a: B,
        #[schemars(with = "String")]
        #[serde(flatten)]
        #[schemars(rename = "$x1")]
        r#type: Inner2,
    },
}
#[derive(JsonSchema)]
/// # Only
#[schemars(extend("x-r" = [1]))]
pub struct W32_468 {
    #[schemars(schema_with = "sw1")]
    #[schemars(example = 8)]
    pub trail_: Option<u32>,
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(untagged)]
pub enum W32_469 {
    /// Doc r.
    #[schemars(with = "B")]
    FooBar {
        #[serde(skip_serializing_if = "sif")]
        #[serde(flatten)]
        foo_bar_baz: NullUn,
    },
}
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(deny_unknown_fields)]
pub enum W31_1678 {
    /// # Rt
    ///
    /// body
    Zz {
        /// # Rt
        ///
        /// body
        #[validate(length(max = 8))]
        #[schemars(skip_deserializing)]
        ab: Vec<A>,
        foo_bar: Vec<A>,
        #[schemars(required)]
        #[schemars(skip_serializing_if = "sif")]
        q: Option<B>,
    },
    /// Doc r.
    #[serde(untagged)]
    A(
        String,
        #[serde(skip)]
        #[schemars(transform = tr1)]
        #[schemars(!skip)]
        #[schemars(with = "Option<A>")]
        Option<A>,
        #[garde(inner(range(max = 5)))]
        Option<String>,
    ),
}
#[derive(JsonSchema, Default)]
/// Doc r.
#[serde(default)]
pub struct W32_470 {
    pub _lead: u32,
    #[validate(required)]
    #[schemars(flatten)]
    pub foo_bar_baz: Option<UnEnum>,
    #[schemars(required)]
    #[schemars(skip_serializing_if = "sif")]
    pub foo_bar: Option<A>,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(rename_all_fields = "camelCase")]
#[schemars(deny_unknown_fields)]
pub enum W31_1679 {
    /// Doc r.
    URLPart,
    /// Doc r.
    #[schemars(example = 8)]
    W2,
    /// Doc r.
    #[serde(rename_all = "snake_case")]
    X1Y2 {
        #[serde(skip)]
        #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
        #[serde(flatten)]
        _lead: FF,
    },
    /// # Rt
    ///
    /// body
    #[schemars(rename = "vn2")]
    FooBar,
}
#[derive(JsonSchema)]
pub struct W31_1680(
    #[schemars(email)]
    #[schemars(extend("type" = "null"))]
    pub bool,
    pub TT,
    #[schemars(skip)]
    #[serde(skip_deserializing)]
    #[schemars(email)]
    pub B,
);
#[derive(JsonSchema)]
pub struct W32_471(
    pub B,
);
#[derive(JsonSchema)]
/// Doc r.
#[serde(untagged)]
#[serde(rename_all = "camelCase")]
pub enum W31_1681 {
    #[serde(skip)]
    #[schemars(extend("title" = "Xt"))]
    A(
        Option<A>,
        #[garde(inner(range(max = 5)))]
        Option<String>,
    ),
    /// # Rt
    ///
    /// body
    #[serde(rename = "type1")]
    Ab {

    },
    #[serde(rename = "type2")]
    URLPart(
        Option<A>,
        Refd,
        A,
    ),
    /// Doc r.
    #[schemars(title = "")]
    FooBar,
    #[schemars(rename_all = "snake_case")]
    Zz {
        #[serde(flatten)]
        x1_y2: Option<Inner1>,
        #[validate(length(max = 8))]
        #[schemars(extend("x-r" = [1]))]
        foo_bar: Vec<String>,
    },
}
#[derive(JsonSchema, Default)]
/// Doc r.
#[serde(default)]
pub struct W32_472 {
    #[schemars(flatten)]
    pub a: UnitEnum,
    #[serde(default)]
    pub _lead: bool,
    #[validate(range(min = 1, max = 9))]
    #[serde(skip_serializing_if = "sif")]
    pub q: InlineS,
    #[schemars(extend("readOnly" = false))]
    #[validate(range(min = 1, max = 9))]
    pub trail_: TT,
    #[serde(flatten)]
    pub zz: FF,
}
#[derive(JsonSchema)]
#[schemars(extend("x-r" = [1]))]
#[serde(rename_all = "PascalCase")]
#[schemars(deny_unknown_fields)]
pub struct W32_473 {
    /// Doc r.
    pub zz: TT,
}
#[derive(JsonSchema)]
/// # Only
pub struct W32_474 {
    /// # Rt
    ///
    /// body
    #[deprecated]
    pub q: C,
}
#[derive(JsonSchema)]
#[schemars(title = "")]
pub struct W32_475(
    pub Option<u32>,
    /// # Only
    #[schemars(extend("x-r" = [1]))]
    pub Refd,
);
#[derive(JsonSchema)]
#[schemars(extend("x-r" = [1]))]
pub enum W32_476 {
    /// # Rt
    ///
    /// body
    #[serde(rename = "type1")]
    #[schemars(rename_all = "snake_case")]
    FooBar {

    },
}
#[derive(JsonSchema)]
pub struct W32_477 {
    #[schemars(extend("x-r" = [1]))]
    pub zz: bool,
    #[serde(default)]
    #[serde(rename = "rn1")]
    #[serde(flatten)]
    pub a: Inner2,
    #[schemars(schema_with = "sup::sw2")]
    #[serde(flatten)]
    pub trail_: NullUn,
    #[schemars(regex(pattern = "^r"))]
    pub ab: D,
}
#[derive(JsonSchema, Default)]
/// # Only
#[serde(default)]
pub struct W31_1682 {
    /// # Rt
    ///
    /// body
    #[schemars(!skip_deserializing)]
    #[serde(skip_deserializing)]
    pub q: C,
    #[schemars(rename(serialize = "rs21"))]
    pub ab: Box<A>,
}
#[derive(JsonSchema)]
pub struct W31_1683(
    #[schemars(inner(length(min = 1)))]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub Option<B>,
    #[schemars(transform = tr1)]
    pub Vec<String>,
    /// # Only
    #[deprecated]
    #[schemars(inner(length(min = 1)))]
    pub C,
    #[serde(skip_serializing)]
    #[schemars(example = 8)]
    pub bool,
);
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(example = 8)]
pub enum W31_1684 {
    #[schemars(extend("title" = "Xt"))]
    A(
        /// Doc r.
        B,
    ),
    /// Doc r.
    FooBarBaz,
    /// Doc r.
    #[serde(untagged)]
    #[schemars(title = "")]
    W2(
        #[garde(ipv4)]
        #[schemars(extend("title" = "Xt"))]
        Option<Refd>,
    ),
    #[deprecated]
    #[schemars(skip)]
    #[serde(rename = "type1")]
    #[serde(untagged)]
    X1Y2(
        /// # Only
        #[validate(length(max = 8))]
        Vec<String>,
    ),
}
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(extend("title" = "Xt"))]
pub enum W31_1685 {
    /// Doc r.
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[schemars(rename_all = "kebab-case")]
    #[schemars(extend("x-r" = [1]))]
    URLPart {
        /// Doc r.
        zz: Option<B>,
    },
    #[schemars(description = "Rd")]
    Zz,
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(serialize = "SCREAMING-KEBAB-CASE"))]
pub enum W32_478 {
    /// # Only
    W2(
        C,
    ),
    #[schemars(rename = "vn1")]
    A(
        #[schemars(regex(pattern = "^r"))]
        MultiT,
    ),
    #[schemars(description = "Rd")]
    Zz(
        #[schemars(extend("type" = "null"))]
        Option<String>,
        #[schemars(extend("type" = "null"))]
        Refd,
        #[schemars(extend("x-r" = [1]))]
        Box<Option<B>>,
    ),
    #[serde(untagged)]
    Q,
}
#[derive(JsonSchema)]
/// # Only
pub struct W31_1686(
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub MultiT,
    /// # Only
    #[deprecated]
    #[validate(length(max = 8))]
    pub Box<Option<B>>,
    #[serde(skip_serializing)]
    pub Option<u32>,
    /// # Only
    #[schemars(extend("readOnly" = false))]
    pub Option<A>,
);
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(rename_all(serialize = "camelCase"))]
#[serde(rename_all_fields(serialize = "camelCase", deserialize = "kebab-case"))]
pub enum W32_479 {
    #[schemars(rename = "type1")]
    A(
        #[garde(inner(range(max = 5)))]
        Option<String>,
    ),
    /// Doc r.
    Foo_Bar(
        TT,
        #[schemars(length(min = 1))]
        bool,
        /// # Only
        #[schemars(length(min = 1))]
        Option<A>,
    ),
    /// # Rt
    ///
    /// body
    FooBarBaz,
    #[serde(untagged)]
    X1Y2 {
        #[serde(flatten)]
        #[serde(default)]
        ab: InnerO,
        #[schemars(default)]
        #[schemars(with = "B")]
        #[validate(length(max = 8))]
        #[schemars(extend("title" = "Xt"))]
        r#type: Box<A>,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "camelCase"))]
pub struct W32_480 {
    #[serde(flatten)]
    #[schemars(default)]
    pub URL_part: OneEx,
    #[serde(rename(serialize = "rs1", deserialize = "rd1"))]
    #[serde(flatten)]
    pub _lead: A,
    #[validate(length(max = 8))]
    pub q: Vec<String>,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(transparent)]
pub struct W32_481(
    #[schemars(with = "Refd")]
    #[schemars(regex(pattern = "^r"))]
    #[schemars(extend("readOnly" = false))]
    pub InlineS,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(extend("title" = "Xt"))]
#[serde(deny_unknown_fields)]
pub enum W32_482 {
    /// # Only
    W2(
        #[schemars(range(min = 2))]
        #[schemars(schema_with = "sw_obj")]
        #[schemars(extend("type" = "null"))]
        Box<Option<B>>,
        #[schemars(with = "Option<A>")]
        #[schemars(example = 8)]
        Option<u32>,
    ),
    /// # Rt
    ///
    /// body
    A,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W32_483 {
    #[serde(flatten)]
    pub ab: Uneval1,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[schemars(rename_all_fields = "SCREAMING-KEBAB-CASE")]
#[serde(deny_unknown_fields)]
pub enum W31_1687 {
    #[serde(rename = "type1")]
    #[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
    #[schemars(extend("title" = "Xt"))]
    URLPart {
        #[serde(skip_deserializing)]
        #[serde(default)]
        #[schemars(with = "Inner1")]
        #[serde(skip_serializing)]
        #[schemars(inner(length(min = 1)))]
        #[serde(skip_serializing_if = "sif")]
        a: Option<A>,
    },
    #[serde(rename = "vn2")]
    Q(
        #[deprecated]
        #[schemars(extend("title" = "Xt"))]
        MultiT,
    ),
    FooBarBaz(
        Box<Option<B>>,
        MultiT,
    ),
    /// Doc r.
    W2(
        Option<String>,
        /// # Rt
        ///
        /// body
        #[validate(url)]
        #[validate(range(min = 1, max = 9))]
        B,
    ),
    /// # Only
    #[serde(untagged)]
    FooBar(
        D,
        Inner1,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(deny_unknown_fields)]
pub struct W31_1688 {
    /// Doc r.
    #[schemars(contains("c.c"))]
    #[schemars(rename = "zz91")]
    #[garde(inner(range(max = 5)))]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub zz: Vec<A>,
    #[schemars(schema_with = "sup::sw2")]
    pub foo_bar_baz: A,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(rename_all(serialize = "lowercase"))]
#[schemars(rename_all_fields(serialize = "PascalCase", deserialize = "kebab-case"))]
pub enum W31_1689 {
    /// # Rt
    ///
    /// body
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    W2 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(deny_unknown_fields)]
pub enum W31_1690 {
    Q,
    #[schemars(rename_all(serialize = "SCREAMING-KEBAB-CASE"))]
    FooBarBaz {
        /// Doc r.
        w2: D,
    },
    /// # Only
    #[serde(skip)]
    #[schemars(!skip)]
    Ab {
        #[schemars(schema_with = "sup::sw2")]
        #[serde(flatten)]
        #[serde(default)]
        r#type: Opt2,
        a: Refd,
        #[serde(flatten)]
        #[schemars(schema_with = "sw1")]
        #[serde(rename = "rn1")]
        #[serde(default)]
        #[serde(skip)]
        URL_part: Enum2,
    },
    /// # Only
    Zz {

    },
    #[schemars(rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "SCREAMING_SNAKE_CASE"))]
    #[schemars(schema_with = "sw1")]
    #[schemars(example = 8)]
    A {
        #[schemars(rename(serialize = "rs22"))]
        q: Refd,
        #[schemars(default)]
        #[schemars(schema_with = "sw1")]
        #[schemars(flatten)]
        foo_bar_baz: Option<Inner1>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(extend("x-r" = [1]))]
#[schemars(rename_all = "snake_case")]
pub enum W31_1691 {
    URLPart {

    },
    #[serde(rename_all(serialize = "lowercase"))]
    #[schemars(schema_with = "sw_obj")]
    A {
        /// Doc r.
        #[serde(default)]
        #[validate(length(max = 8))]
        a: Option<Refd>,
        #[garde(inner(range(max = 5)))]
        #[serde(skip_deserializing)]
        #[schemars(email)]
        zz: Box<Option<B>>,
        #[schemars(title = "Rt")]
        #[schemars(length(min = 1))]
        _lead: Refd,
    },
    #[serde(skip)]
    W2 {
        #[schemars(example = 8)]
        w2: Refd,
    },
    /// Doc r.
    Q(
        /// # Only
        #[deprecated]
        #[schemars(extend("readOnly" = false))]
        #[schemars(contains("c.c"))]
        Box<Option<B>>,
    ),
    #[schemars(description = "Rd")]
    Ab {

    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(title = "Rt")]
#[serde(rename_all = "PascalCase")]
pub enum W31_1692 {
    #[serde(rename = "type1")]
    X1Y2(
        Vec<A>,
    ),
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    FooBar(
        B,
    ),
    /// # Only
    #[schemars(rename(serialize = "vs2", deserialize = "vd2"))]
    Q,
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(example = 8)]
pub struct W31_1693 {
    #[schemars(schema_with = "sw1")]
    #[schemars(flatten)]
    pub x1_y2: Option<Inner1>,
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    #[serde(rename = "$x1")]
    #[schemars(skip_serializing)]
    pub dbl__us: Refd,
    #[serde(skip_deserializing)]
    #[serde(flatten)]
    pub q: TT,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "camelCase"))]
#[serde(deny_unknown_fields)]
pub enum W31_1694 {
    #[serde(rename = "vn1")]
    URLPart(
        /// # Rt
        ///
        /// body
        C,
        #[schemars(skip)]
        Box<Option<B>>,
        #[schemars(title = "Rt")]
        #[schemars(contains("c.c"))]
        #[schemars(with = "Refd")]
        #[schemars(email)]
        Option<B>,
    ),
    Q {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_484 {
    Ab {
        #[serde(flatten)]
        dbl__us: Option<UnEnum>,
    },
    /// # Only
    #[schemars(example = 8)]
    Zz {
        #[deprecated]
        #[serde(skip_serializing_if = "sif")]
        ab: TT,
        /// Doc r.
        #[garde(inner(range(max = 5)))]
        #[schemars(description = "Rd")]
        #[serde(default)]
        zz: Refd,
        #[serde(rename = "type1")]
        #[schemars(with = "Inner1")]
        #[schemars(title = "")]
        x1_y2: Refd,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(example = 8)]
#[schemars(rename_all = "lowercase")]
pub enum W32_485 {
    /// # Rt
    ///
    /// body
    #[serde(rename_all = "lowercase")]
    Ab {
        w2: B,
        #[serde(flatten)]
        foo_bar: NoUnit,
        trail_: Option<Refd>,
    },
    Zz(
        #[validate(range(min = 1, max = 9))]
        #[schemars(schema_with = "sup::sw2")]
        Box<A>,
    ),
    #[schemars(description = "Rd")]
    FooBar(
        /// # Rt
        ///
        /// body
        D,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(rename_all_fields = "PascalCase")]
pub enum W32_486 {
    /// # Rt
    ///
    /// body
    FooBar(
        #[validate(required)]
        Option<B>,
        #[garde(inner(range(max = 5)))]
        #[schemars(regex(pattern = "^r"))]
        Vec<A>,
        #[validate(length(max = 8))]
        #[schemars(schema_with = "sup::sw2")]
        Vec<A>,
    ),
}
#[derive(JsonSchema)]
#[schemars(extend("x-r" = [1]))]
#[schemars(deny_unknown_fields)]
pub struct W31_1695 {
    #[serde(skip_serializing_if = "sif")]
    #[schemars(skip_deserializing)]
    #[schemars(extend("x-r" = [1]))]
    pub zz: Vec<String>,
    #[schemars(title = "")]
    #[garde(ipv4)]
    #[serde(default)]
    pub ab: bool,
    #[serde(default)]
    #[schemars(transform = tr1)]
    pub w2: C,
    #[schemars(title = "")]
    pub r#type: MultiT,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(description = "Rd")]
#[serde(rename_all_fields(serialize = "SCREAMING-KEBAB-CASE", deserialize = "camelCase"))]
pub enum W31_1696 {
    X1Y2 {

    },
    /// Doc r.
    Foo_Bar,
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    Ab(
        /// # Rt
        ///
        /// body
        Refd,
        #[schemars(!skip)]
        #[serde(skip)]
        #[garde(length(equal = 3))]
        Option<u32>,
        C,
    ),
    #[schemars(title = "")]
    Q {
        /// Doc r.
        #[schemars(email)]
        #[validate(required)]
        #[schemars(rename = "type2")]
        ab: Option<u32>,
        #[schemars(default)]
        #[schemars(flatten)]
        r#type: Nested1,
        /// # Only
        #[serde(default)]
        #[validate(range(min = 1, max = 9))]
        trail_: Option<B>,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(title = "")]
#[serde(transparent)]
pub struct W32_487(
    pub Vec<String>,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(rename_all_fields = "UPPERCASE")]
pub enum W32_488 {
    /// Doc r.
    #[serde(rename = "vn1")]
    Foo_Bar,
    /// # Only
    #[schemars(extend("title" = "Xt"))]
    X1Y2(
        /// # Rt
        ///
        /// body
        #[deprecated]
        D,
    ),
    FooBarBaz {

    },
    URLPart(
        /// # Rt
        ///
        /// body
        #[schemars(email)]
        String,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "camelCase", deserialize = "SCREAMING-KEBAB-CASE"))]
pub enum W31_1697 {
    #[serde(rename = "vn2")]
    #[serde(rename_all = "snake_case")]
    X1Y2 {
        #[serde(rename(serialize = "rs21"))]
        #[serde(default)]
        #[serde(skip_deserializing)]
        #[validate(url)]
        r#type: Option<u32>,
        #[garde(inner(range(max = 5)))]
        #[schemars(default)]
        zz: Box<Option<B>>,
        #[deprecated]
        #[schemars(email)]
        #[schemars(regex(pattern = "^r"))]
        #[serde(skip_serializing_if = "sif")]
        dbl__us: MultiT,
    },
    /// Doc r.
    #[schemars(extend("x-r" = [1]))]
    Zz {
        /// # Only
        #[schemars(rename(serialize = "rs23"))]
        #[schemars(default)]
        a: Vec<A>,
    },
    #[schemars(extend("x-r" = [1]))]
    Ab,
    W2(
        #[schemars(with = "Refd")]
        Option<B>,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all = "camelCase")]
pub struct W32_489 {
    /// Doc r.
    #[schemars(extend("x-r" = [1]))]
    #[schemars(skip_serializing_if = "sif")]
    pub w2: Vec<String>,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "kebab-case"))]
pub struct W31_1698 {
    #[serde(rename = "type1")]
    #[schemars(flatten)]
    #[serde(default)]
    pub ab: Deny1,
    /// # Rt
    ///
    /// body
    #[serde(rename = "rn2")]
    pub _lead: Box<Option<B>>,
    #[serde(skip_serializing)]
    #[schemars(rename = "$x3")]
    #[schemars(skip_deserializing)]
    #[schemars(extend("x-r" = [1]))]
    pub foo_bar_baz: B,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(rename_all = "UPPERCASE")]
pub struct W31_1699 {
    #[schemars(rename = "type1")]
    #[schemars(with = "Refd")]
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub foo_bar_baz: InnerO,
    #[serde(skip_serializing_if = "sif")]
    #[serde(rename = "R n2")]
    pub trail_: u32,
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    #[schemars(skip_serializing_if = "sif")]
    pub URL_part: Refd,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_490(
    pub TT,
);
#[derive(JsonSchema)]
pub struct W32_491 {
    /// # Rt
    ///
    /// body
    #[deprecated]
    pub w2: Box<A>,
}
#[derive(JsonSchema)]
#[schemars(example = 8)]
pub struct W32_492(
    #[schemars(description = "Rd")]
    #[schemars(inner(length(min = 1)))]
    #[validate(length(max = 8))]
    pub Box<Option<B>>,
    #[garde(length(equal = 3))]
    pub bool,
    pub TT,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(rename_all(serialize = "kebab-case"))]
pub struct W32_493 {
    pub foo_bar: Option<u32>,
    #[schemars(with = "Inner1")]
    #[validate(range(min = 1, max = 9))]
    #[serde(rename = "rn1")]
    pub q: Option<String>,
    #[serde(default)]
    #[schemars(with = "Inner1")]
    pub trail_: A,
    /// # Only
    #[schemars(rename(serialize = "rs2", deserialize = "rd2"))]
    #[schemars(inner(length(min = 1)))]
    pub a: Vec<String>,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_494(
    #[deprecated]
    pub C,
);
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_495(
    #[garde(ipv4)]
    pub Option<String>,
    /// # Only
    #[schemars(transform = tr1)]
    pub C,
);
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
#[serde(rename_all_fields = "UPPERCASE")]
pub enum W31_1700 {
    Q(
        /// Doc r.
        #[schemars(schema_with = "sw_obj")]
        D,
        /// Doc r.
        #[schemars(example = 8)]
        B,
        /// # Only
        #[serde(skip)]
        Inner1,
    ),
    /// # Only
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    FooBar {
        r#type: Option<A>,
        #[serde(rename = "R n1")]
        foo_bar_baz: Option<String>,
    },
    /// Doc r.
    #[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
    #[schemars(extend("x-r" = [1]))]
    FooBarBaz {
        /// # Rt
        ///
        /// body
        #[deprecated]
        #[serde(skip_serializing)]
        #[schemars(extend("x-r" = [1]))]
        x1_y2: Refd,
        #[schemars(rename = "$x2")]
        #[serde(flatten)]
        trail_: Refd,
        /// # Rt
        ///
        /// body
        #[schemars(extend("title" = "Xt"))]
        #[serde(default)]
        foo_bar_baz: D,
    },
    #[serde(rename = "vn3")]
    #[schemars(extend("x-r" = [1]))]
    Ab,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(extend("x-r" = [1]))]
pub enum W31_1701 {
    /// # Only
    #[schemars(transform = tr1)]
    W2(
        /// # Rt
        ///
        /// body
        Box<Option<B>>,
    ),
    FooBarBaz(
        #[schemars(title = "")]
        #[schemars(with = "Option<A>")]
        InlineS,
        #[serde(skip_serializing)]
        #[schemars(transform = tr1)]
        #[schemars(email)]
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W32_496(
    /// # Only
    #[schemars(title = "Rt")]
    pub Option<u32>,
    #[deprecated]
    pub B,
    #[schemars(description = "Rd")]
    pub Option<Refd>,
    #[deprecated]
    #[garde(inner(range(max = 5)))]
    pub String,
);
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
pub enum W31_1702 {
    #[schemars(title = "Rt")]
    Q(
        #[garde(inner(range(max = 5)))]
        #[schemars(title = "")]
        Refd,
    ),
    URLPart,
    #[schemars(rename = "vn1")]
    #[schemars(extend("title" = "Xt"))]
    FooBar {
        #[schemars(skip_deserializing)]
        _lead: Option<Refd>,
        w2: Refd,
        #[serde(skip)]
        #[schemars(!skip)]
        a: TT,
    },
    /// # Only
    #[schemars(rename(serialize = "vs2", deserialize = "vd2"))]
    Zz(
        #[schemars(with = "B")]
        Option<Refd>,
    ),
    /// # Only
    #[serde(skip_deserializing)]
    #[serde(untagged)]
    A {
        #[schemars(skip_serializing_if = "sif")]
        x1_y2: TT,
    },
}
#[derive(JsonSchema)]
/// # Only
#[schemars(description = "Rd")]
#[schemars(rename_all(serialize = "UPPERCASE"))]
#[schemars(rename_all_fields = "UPPERCASE")]
#[serde(deny_unknown_fields)]
pub enum W31_1703 {
    /// # Only
    #[schemars(rename = "vn1")]
    A(
        C,
        #[schemars(example = 8)]
        #[schemars(skip_deserializing)]
        #[garde(length(equal = 3))]
        #[serde(skip_serializing)]
        String,
    ),
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    Zz {
        #[serde(skip_serializing_if = "sif")]
        trail_: MultiT,
    },
    /// # Only
    FooBarBaz(
        /// # Rt
        ///
        /// body
        D,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(title = "")]
    URLPart(
        /// # Only
        #[deprecated]
        #[schemars(schema_with = "sup::sw2")]
        MultiT,
    ),
    /// Doc r.
    W2(
        #[garde(ipv4)]
        Option<u32>,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[schemars(transform = tr1)]
pub enum W32_497 {
    /// # Rt
    ///
    /// body
    #[serde(untagged)]
    Q(
        #[garde(inner(range(max = 5)))]
        Refd,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(transform = tr1)]
#[serde(transparent)]
pub struct W32_498(
    #[schemars(schema_with = "sw1")]
    pub Option<Refd>,
);
#[derive(JsonSchema)]
/// Doc r.
#[schemars(title = "")]
#[serde(rename_all_fields(serialize = "SCREAMING_SNAKE_CASE"))]
pub enum W31_1704 {
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(title = "Rt")]
    X1Y2(
        C,
    ),
    /// # Rt
    ///
    /// body
    A(
        #[deprecated]
        #[schemars(with = "Refd")]
        A,
        #[garde(ipv4)]
        #[schemars(extend("type" = "null"))]
        #[serde(skip)]
        Vec<A>,
    ),
    /// # Rt
    ///
    /// body
    Ab(
        /// Doc r.
        #[deprecated]
        Inner1,
    ),
    /// # Rt
    ///
    /// body
    #[deprecated]
    #[serde(rename(serialize = "vs3", deserialize = "vd3"))]
    #[schemars(rename_all = "snake_case")]
    FooBar {
        /// # Only
        #[schemars(skip_deserializing)]
        #[serde(skip_serializing)]
        #[schemars(default)]
        #[schemars(with = "Refd")]
        #[schemars(rename(serialize = "rs2", deserialize = "rd2"))]
        foo_bar_baz: bool,
        #[serde(skip_deserializing)]
        x1_y2: Option<A>,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(extend("x-r" = [1]))]
#[schemars(transparent)]
pub struct W32_499(
    #[validate(length(max = 8))]
    #[schemars(description = "Rd")]
    pub Option<u32>,
);
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(rename_all_fields(serialize = "lowercase", deserialize = "UPPERCASE"))]
pub enum W32_500 {
    Q {
        /// # Rt
        ///
        /// body
        #[schemars(inner(length(min = 1)))]
        ab: Option<String>,
        #[schemars(rename = "type1")]
        #[schemars(transform = tr1)]
        foo_bar_baz: Box<A>,
    },
    /// # Rt
    ///
    /// body
    #[schemars(example = 8)]
    FooBarBaz(
        /// Doc r.
        #[garde(length(equal = 3))]
        TT,
        /// # Only
        #[deprecated]
        #[schemars(with = "String")]
        #[validate(length(max = 8))]
        Vec<A>,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W31_1705 {
    /// Doc r.
    #[schemars(!skip_serializing)]
    #[schemars(extend("type" = "null"))]
    #[serde(skip_serializing)]
    #[serde(skip_serializing_if = "sif")]
    pub foo_bar: TT,
    /// # Rt
    ///
    /// body
    #[schemars(skip_serializing)]
    pub dbl__us: C,
    #[schemars(skip_deserializing)]
    #[serde(flatten)]
    #[schemars(default)]
    #[serde(skip_serializing)]
    pub foo_bar_baz: OneTag,
    #[serde(flatten)]
    pub _lead: NoUnit,
    #[schemars(default)]
    pub ab: MultiT,
}
#[derive(JsonSchema)]
/// # Only
pub struct W32_501 {
    /// # Only
    pub foo_bar_baz: u32,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(untagged)]
#[serde(deny_unknown_fields)]
pub enum W32_502 {
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    Foo_Bar,
    FooBarBaz(
        #[schemars(example = 8)]
        D,
    ),
    A,
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    URLPart(
        /// # Only
        #[schemars(schema_with = "sup::sw2")]
        String,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(title = "")]
pub struct W31_1706 {
    #[schemars(title = "")]
    #[schemars(schema_with = "sw1")]
    #[serde(skip_serializing)]
    pub URL_part: u32,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(rename_all_fields(serialize = "camelCase", deserialize = "SCREAMING-KEBAB-CASE"))]
pub enum W31_1707 {
    /// # Only
    Q(
        #[schemars(extend("type" = "null"))]
        String,
        #[schemars(extend("type" = "null"))]
        D,
    ),
    #[schemars(transform = tr1)]
    Zz {
        #[schemars(flatten)]
        q: Deny1,
        #[garde(length(equal = 3))]
        r#type: A,
    },
    /// # Only
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    #[schemars(example = 8)]
    Foo_Bar(
        #[deprecated]
        #[schemars(with = "Inner1")]
        Option<B>,
    ),
    /// # Rt
    ///
    /// body
    #[deprecated]
    #[schemars(rename_all(serialize = "UPPERCASE"))]
    #[schemars(example = 8)]
    Ab {
        #[validate(url)]
        foo_bar: Box<Option<B>>,
    },
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[serde(rename_all = "camelCase")]
    #[serde(untagged)]
    FooBar {
        #[schemars(flatten)]
        foo_bar: NestedDeep,
    },
}
#[derive(JsonSchema, Default)]
#[schemars(extend("x-r" = [1]))]
#[serde(default)]
pub struct W32_503 {
    /// # Rt
    ///
    /// body
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    pub trail_: A,
    #[schemars(default)]
    #[validate(required)]
    #[schemars(title = "")]
    pub foo_bar_baz: Option<u32>,
    pub q: Option<B>,
}
#[derive(JsonSchema)]
pub struct W32_504(
    #[validate(range(min = 1, max = 9))]
    pub MultiT,
    pub String,
);
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W32_505 {
    #[schemars(rename = "vn1")]
    X1Y2(
        #[schemars(example = 8)]
        Refd,
    ),
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    #[serde(untagged)]
    A {
        /// # Only
        r#type: Box<A>,
        w2: Inner1,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(tag = "tg")]
#[schemars(rename_all(serialize = "kebab-case", deserialize = "snake_case"))]
pub enum W31_1708 {
    /// # Rt
    ///
    /// body
    #[serde(rename_all(serialize = "PascalCase", deserialize = "snake_case"))]
    #[schemars(with = "Inner1")]
    FooBarBaz {
        #[schemars(rename = "zz91")]
        #[schemars(skip_serializing_if = "sif")]
        zz: Refd,
        #[schemars(default)]
        dbl__us: B,
        /// Doc r.
        #[serde(skip)]
        #[schemars(with = "Refd")]
        a: Option<u32>,
    },
    /// # Rt
    ///
    /// body
    Zz {
        #[deprecated]
        #[schemars(default)]
        #[schemars(extend("x-r" = [1]))]
        #[schemars(inner(length(min = 1)))]
        dbl__us: InlineS,
        #[serde(flatten)]
        zz: Inner1,
    },
    /// Doc r.
    #[schemars(extend("x-r" = [1]))]
    Foo_Bar(
        #[schemars(extend("readOnly" = false))]
        B,
    ),
    /// # Only
    X1Y2,
    #[deprecated]
    #[schemars(extend("x-r" = [1]))]
    URLPart {

    },
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1709 {
    /// # Only
    #[serde(rename = "type1")]
    URLPart,
    /// # Rt
    ///
    /// body
    #[serde(rename = "vn2")]
    A {

    },
    /// Doc r.
    #[serde(rename_all = "kebab-case")]
    Foo_Bar {

    },
    /// # Rt
    ///
    /// body
    #[deprecated]
    FooBarBaz,
    #[serde(untagged)]
    FooBar(
        /// # Rt
        ///
        /// body
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        Option<Refd>,
        #[schemars(title = "")]
        #[schemars(length(min = 1))]
        Vec<A>,
        #[schemars(length(min = 1))]
        Vec<A>,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_506 {
    /// # Only
    #[serde(untagged)]
    #[schemars(description = "Rd")]
    FooBar(
        D,
        A,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(tag = "tg")]
#[schemars(example = 8)]
#[schemars(rename_all_fields = "camelCase")]
pub enum W31_1710 {
    /// Doc r.
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    Foo_Bar(
        Box<A>,
    ),
    /// Doc r.
    #[schemars(schema_with = "sw_obj")]
    URLPart(
        /// # Only
        Option<u32>,
    ),
    /// # Only
    #[schemars(transform = tr1)]
    X1Y2,
    #[serde(rename = "vn2")]
    W2 {
        #[schemars(flatten)]
        #[schemars(default)]
        ab: Inner1,
        #[serde(default)]
        #[serde(flatten)]
        w2: PatS,
        #[schemars(skip_deserializing)]
        #[serde(skip_serializing)]
        _lead: Refd,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W32_507(
    pub u32,
    /// # Rt
    ///
    /// body
    #[schemars(title = "Rt")]
    #[schemars(with = "Refd")]
    pub Option<B>,
);
#[derive(JsonSchema)]
pub struct W32_508 {
    #[serde(flatten)]
    pub a: UnEnum,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(rename_all_fields = "kebab-case")]
#[schemars(deny_unknown_fields)]
pub enum W31_1711 {
    #[schemars(schema_with = "sw1")]
    FooBarBaz(
        #[schemars(extend("readOnly" = false))]
        String,
    ),
    /// # Rt
    ///
    /// body
    Ab(
        /// # Only
        #[validate(range(min = 1, max = 9))]
        Vec<String>,
        #[schemars(skip_deserializing)]
        Option<A>,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(rename_all = "camelCase")]
    #[schemars(transform = tr1)]
    Zz {
        #[serde(flatten)]
        zz: MapS,
    },
    #[schemars(title = "")]
    Q,
}
#[derive(JsonSchema)]
pub struct W31_1712(
    pub bool,
    #[deprecated]
    #[serde(skip)]
    pub Vec<A>,
);
#[derive(JsonSchema)]
/// # Only
#[serde(untagged)]
#[schemars(title = "")]
#[schemars(rename_all(serialize = "snake_case", deserialize = "snake_case"))]
pub enum W31_1713 {
    #[schemars(skip_serializing)]
    #[schemars(description = "Rd")]
    A(
        A,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(rename = "vn1")]
    FooBarBaz(
        #[garde(length(equal = 3))]
        Refd,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(untagged)]
#[schemars(transform = tr1)]
pub enum W32_509 {
    FooBar(
        #[schemars(contains("c.c"))]
        String,
        MultiT,
    ),
    /// # Only
    #[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
    #[schemars(with = "B")]
    #[schemars(example = 8)]
    Foo_Bar {
        #[serde(flatten)]
        #[serde(rename = "$x1")]
        a: Box<Inner2>,
    },
    X1Y2,
    /// # Only
    #[deprecated]
    #[schemars(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
    #[schemars(extend("title" = "Xt"))]
    Zz {
        #[serde(default)]
        #[serde(flatten)]
        foo_bar: Enum2,
        #[schemars(regex(pattern = "^r"))]
        #[serde(rename = "rn2")]
        #[schemars(schema_with = "sw1")]
        dbl__us: Inner1,
        #[serde(flatten)]
        zz: Deny1,
    },
    /// # Rt
    ///
    /// body
    #[schemars(rename = "type3")]
    W2(
        #[schemars(with = "Refd")]
        A,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(transform = tr1)]
pub struct W31_1714 {
    #[serde(skip_serializing)]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(rename = "zz91")]
    #[schemars(skip_deserializing)]
    pub zz: Option<B>,
    #[serde(flatten)]
    pub ab: Inner2,
    #[schemars(description = "Rd")]
    pub a: TT,
    #[schemars(flatten)]
    pub URL_part: Enum1,
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[schemars(description = "Rd")]
pub enum W31_1715 {
    Zz {
        /// # Rt
        ///
        /// body
        #[serde(default)]
        #[schemars(inner(length(min = 1)))]
        #[serde(skip_serializing_if = "sif")]
        #[serde(rename = "$x1")]
        foo_bar_baz: A,
    },
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[schemars(extend("title" = "Xt"))]
    Ab {
        /// # Only
        ab: Box<A>,
        #[serde(rename(serialize = "rs22"))]
        #[schemars(default)]
        #[serde(flatten)]
        foo_bar: UnitEnum,
    },
    /// Doc r.
    W2,
    FooBar(
        #[garde(ipv4)]
        Box<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(title = "")]
#[serde(rename_all_fields = "PascalCase")]
pub enum W32_510 {
    /// # Rt
    ///
    /// body
    Ab(
        TT,
        #[garde(ipv4)]
        String,
    ),
    /// Doc r.
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(description = "Rd")]
    X1Y2,
    #[schemars(with = "Inner1")]
    Q {

    },
    A(
        #[schemars(regex(pattern = "^r"))]
        Inner1,
    ),
    Zz(
        #[garde(required)]
        Option<Refd>,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(untagged)]
#[schemars(rename_all_fields = "snake_case")]
#[schemars(deny_unknown_fields)]
pub enum W32_511 {
    FooBarBaz,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(extend("x-r" = [1]))]
pub struct W32_512 {
    #[deprecated]
    #[schemars(rename = "type1")]
    pub trail_: Option<B>,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(rename(serialize = "rs22"))]
    #[schemars(flatten)]
    #[schemars(schema_with = "sw1")]
    pub URL_part: Inner1,
    #[deprecated]
    #[schemars(skip_serializing_if = "sif")]
    pub r#type: Inner1,
}
#[derive(JsonSchema)]
#[schemars(description = "Rd")]
pub struct W32_513(
    #[schemars(description = "Rd")]
    pub D,
    #[schemars(description = "Rd")]
    #[schemars(inner(length(min = 1)))]
    pub D,
);
#[derive(JsonSchema)]
pub struct W31_1716 {
    #[serde(flatten)]
    #[serde(rename = "type1")]
    pub _lead: UnitEnum,
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(title = "Rt")]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub r#type: D,
    #[schemars(schema_with = "sw_obj")]
    pub dbl__us: C,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(transform = tr1)]
    #[serde(rename = "zz92")]
    pub zz: TT,
    #[deprecated]
    #[schemars(example = 8)]
    pub foo_bar_baz: Inner1,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[schemars(description = "Rd")]
#[schemars(rename_all(serialize = "PascalCase", deserialize = "SCREAMING-KEBAB-CASE"))]
pub enum W31_1717 {
    /// # Only
    Zz {
        #[schemars(skip_deserializing)]
        URL_part: Option<Refd>,
        #[serde(rename = "$x1")]
        x1_y2: B,
    },
    Ab,
    #[serde(untagged)]
    A(
        Refd,
    ),
}
#[derive(JsonSchema)]
pub enum W31_1718 {
    #[schemars(transform = tr1)]
    FooBarBaz(
        #[schemars(skip_serializing)]
        Box<A>,
        #[schemars(extend("x-r" = [1]))]
        #[schemars(with = "B")]
        C,
        #[schemars(length(min = 1))]
        #[schemars(example = 8)]
        D,
    ),
    #[schemars(rename = "type1")]
    #[schemars(transform = tr1)]
    Foo_Bar {

    },
    /// Doc r.
    #[serde(rename = "type2")]
    Zz(
        #[validate(length(max = 8))]
        Vec<A>,
        bool,
        #[schemars(extend("type" = "null"))]
        MultiT,
    ),
    /// # Rt
    ///
    /// body
    #[serde(rename(serialize = "vs4", deserialize = "vd4"))]
    #[schemars(example = 8)]
    URLPart {
        #[schemars(skip_deserializing)]
        x1_y2: Refd,
        #[schemars(rename = "$x3")]
        #[schemars(skip_serializing)]
        #[schemars(range(min = 2))]
        #[serde(default)]
        #[schemars(schema_with = "sw_obj")]
        r#type: bool,
    },
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_514(
    pub Vec<String>,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(untagged)]
#[schemars(example = 8)]
pub enum W31_1719 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Zz(
        D,
    ),
    #[schemars(example = 8)]
    A(
        #[schemars(title = "Rt")]
        #[schemars(email)]
        bool,
    ),
    #[schemars(rename = "vn1")]
    Foo_Bar(
        B,
    ),
    #[deprecated]
    #[serde(skip_deserializing)]
    #[serde(rename_all(serialize = "kebab-case", deserialize = "camelCase"))]
    FooBar {
        #[serde(flatten)]
        #[serde(skip_serializing)]
        _lead: MapS,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(deny_unknown_fields)]
pub enum W32_515 {
    A {
        /// # Only
        #[serde(skip_serializing_if = "sif")]
        #[schemars(range(min = 2))]
        q: C,
        /// Doc r.
        #[validate(length(max = 8))]
        ab: u32,
    },
    Ab {
        #[serde(skip_serializing_if = "sif")]
        #[schemars(description = "Rd")]
        ab: Box<A>,
        #[schemars(extend("x-r" = [1]))]
        #[serde(default)]
        #[schemars(inner(length(min = 1)))]
        foo_bar_baz: Box<A>,
    },
}
#[derive(JsonSchema)]
pub struct W31_1720(
    /// # Only
    pub Box<A>,
    /// # Only
    #[garde(inner(range(max = 5)))]
    pub Option<Refd>,
    #[deprecated]
    #[garde(required)]
    #[schemars(!skip_serializing)]
    #[serde(skip_serializing)]
    pub Option<B>,
    #[deprecated]
    #[schemars(regex(pattern = "^r"))]
    pub TT,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(extend("title" = "Xt"))]
pub struct W32_516 {
    #[schemars(flatten)]
    #[schemars(rename = "rn1")]
    pub _lead: Opt2,
    #[schemars(range(min = 2))]
    pub x1_y2: bool,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[schemars(rename_all = "UPPERCASE")]
pub enum W31_1721 {
    #[schemars(skip)]
    #[schemars(rename = "vn1")]
    W2,
    Q(
        /// Doc r.
        InlineS,
    ),
    #[schemars(rename(serialize = "vs2", deserialize = "vd2"))]
    FooBar {
        #[schemars(with = "B")]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(flatten)]
        ab: A,
    },
}
#[derive(JsonSchema)]
/// # Only
#[schemars(description = "Rd")]
pub struct W32_517(
    /// Doc r.
    #[schemars(example = 8)]
    pub Option<A>,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W31_1722 {
    #[serde(skip_deserializing)]
    #[schemars(rename = "$x1")]
    #[serde(skip_serializing)]
    #[schemars(default)]
    #[serde(flatten)]
    pub a: UnitEnum,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_518 {
    /// # Only
    URLPart(
        #[deprecated]
        #[schemars(title = "Rt")]
        Inner1,
        #[schemars(title = "")]
        Box<A>,
    ),
    /// # Only
    X1Y2(
        #[deprecated]
        Inner1,
    ),
}
#[derive(JsonSchema, Default)]
/// # Only
#[serde(default)]
pub struct W31_1723 {
    /// # Only
    #[serde(skip_serializing)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(schema_with = "sw1")]
    pub URL_part: u32,
    /// # Rt
    ///
    /// body
    #[schemars(default)]
    pub w2: Vec<String>,
}
#[derive(JsonSchema)]
pub struct W31_1724(
    pub Inner1,
    /// # Only
    #[deprecated]
    #[garde(ipv4)]
    pub Vec<String>,
    #[garde(inner(range(max = 5)))]
    #[schemars(with = "Inner1")]
    #[serde(skip_deserializing)]
    #[schemars(description = "Rd")]
    pub D,
    /// Doc r.
    pub Option<String>,
);
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(transform = tr1)]
pub enum W31_1725 {
    #[schemars(rename = "vn3")]
    FooBarBaz {
        #[schemars(title = "")]
        #[schemars(skip_serializing_if = "sif")]
        #[serde(default)]
        #[serde(rename = "R n1")]
        #[schemars(with = "Inner1")]
        #[schemars(length(min = 1))]
        dbl__us: Refd,
        #[serde(flatten)]
        r#type: NestedDeep,
        #[schemars(email)]
        #[schemars(extend("x-r" = [1]))]
        #[schemars(rename = "$x2")]
        q: InlineS,
    },
    /// # Only
    #[deprecated]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Ab(
        #[schemars(email)]
        TT,
    ),
    /// # Only
    #[schemars(title = "")]
    FooBar(
        /// # Only
        Option<Refd>,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(example = 8)]
pub struct W32_519(
    #[garde(ipv4)]
    pub Vec<String>,
);
#[derive(JsonSchema)]
/// # Only
#[schemars(title = "")]
pub struct W32_520 {
    #[schemars(description = "Rd")]
    #[schemars(with = "String")]
    pub r#type: D,
    #[schemars(rename = "R n1")]
    pub w2: TT,
    pub q: u32,
    #[schemars(title = "Rt")]
    #[validate(range(min = 1, max = 9))]
    #[serde(skip_serializing_if = "sif")]
    pub foo_bar_baz: Vec<A>,
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(extend("title" = "Xt"))]
#[schemars(rename_all_fields = "kebab-case")]
pub enum W32_521 {
    Q {

    },
    /// # Only
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    Ab {
        /// Doc r.
        #[schemars(regex(pattern = "^r"))]
        foo_bar: Refd,
    },
    /// # Rt
    ///
    /// body
    #[serde(rename = "vn2")]
    Zz {
        foo_bar_baz: Refd,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(untagged)]
pub enum W31_1726 {
    #[serde(rename = "type1")]
    #[schemars(schema_with = "sw_obj")]
    W2(
        #[schemars(schema_with = "sw1")]
        Option<A>,
    ),
    URLPart {
        #[garde(inner(range(max = 5)))]
        #[schemars(skip_serializing)]
        a: u32,
        #[schemars(flatten)]
        #[schemars(skip_serializing_if = "sif")]
        r#type: FF,
    },
    #[deprecated]
    #[serde(rename_all(serialize = "PascalCase", deserialize = "PascalCase"))]
    #[schemars(extend("x-r" = [1]))]
    FooBarBaz {
        #[serde(flatten)]
        #[serde(rename = "zz92")]
        zz: Refd,
        /// Doc r.
        foo_bar: Inner1,
    },
    Ab,
    #[schemars(transform = tr1)]
    FooBar {
        #[serde(rename(serialize = "rs23"))]
        dbl__us: InlineS,
    },
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[schemars(rename_all(serialize = "PascalCase"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1727 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    #[schemars(rename_all(serialize = "lowercase"))]
    #[schemars(title = "")]
    W2 {
        /// Doc r.
        #[schemars(default)]
        foo_bar_baz: Box<Option<B>>,
        #[serde(flatten)]
        _lead: Refd,
    },
    /// Doc r.
    #[serde(rename_all = "UPPERCASE")]
    X1Y2 {

    },
    #[deprecated]
    FooBar {
        #[schemars(with = "Option<A>")]
        zz: Vec<String>,
        #[deprecated]
        #[validate(length(max = 8))]
        #[serde(skip_deserializing)]
        #[serde(default)]
        _lead: Option<u32>,
        #[serde(default)]
        #[serde(flatten)]
        r#type: Option<UnEnum>,
    },
    #[schemars(title = "")]
    Q(
        #[schemars(extend("x-r" = [1]))]
        #[garde(inner(range(max = 5)))]
        D,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1728 {
    #[schemars(skip)]
    Zz {
        #[schemars(title = "Rt")]
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(skip_serializing)]
        URL_part: Option<Refd>,
        /// # Only
        #[serde(skip_deserializing)]
        #[schemars(description = "Rd")]
        #[schemars(schema_with = "sw_obj")]
        #[schemars(skip)]
        r#type: C,
    },
    W2 {
        #[schemars(extend("type" = "null"))]
        #[validate(length(max = 8))]
        #[serde(rename = "R n1")]
        URL_part: Refd,
        #[schemars(extend("readOnly" = false))]
        #[schemars(range(min = 2))]
        x1_y2: Vec<String>,
        /// # Only
        #[garde(inner(range(max = 5)))]
        #[schemars(with = "B")]
        #[schemars(extend("x-r" = [1]))]
        foo_bar: B,
    },
    /// # Rt
    ///
    /// body
    FooBarBaz(
        /// # Rt
        ///
        /// body
        #[validate(range(min = 1, max = 9))]
        Box<Option<B>>,
    ),
    /// # Rt
    ///
    /// body
    #[serde(rename = "type2")]
    #[schemars(extend("title" = "Xt"))]
    Ab,
    /// # Only
    #[serde(rename = "vn3")]
    X1Y2 {

    },
}
#[derive(JsonSchema)]
/// # Only
#[schemars(extend("title" = "Xt"))]
#[schemars(transparent)]
pub struct W32_522(
    #[schemars(inner(length(min = 1)))]
    pub A,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(untagged)]
pub enum W31_1729 {
    /// # Only
    X1Y2 {
        #[schemars(with = "String")]
        #[serde(rename = "R n1")]
        #[serde(flatten)]
        #[schemars(skip)]
        a: Enum1,
    },
    /// Doc r.
    FooBarBaz(
        #[schemars(transform = tr1)]
        B,
    ),
    Q {
        x1_y2: MultiT,
    },
    #[schemars(title = "")]
    Ab(
        #[garde(length(equal = 3))]
        #[schemars(inner(length(min = 1)))]
        Vec<A>,
        #[validate(url)]
        B,
        /// # Only
        #[schemars(length(min = 1))]
        B,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(example = 8)]
#[schemars(rename_all_fields(serialize = "UPPERCASE"))]
pub enum W32_523 {
    /// # Rt
    ///
    /// body
    X1Y2(
        Option<String>,
    ),
    /// # Rt
    ///
    /// body
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    URLPart {

    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W31_1730(
    /// # Rt
    ///
    /// body
    pub Refd,
    #[schemars(inner(length(min = 1)))]
    #[serde(skip)]
    pub Inner1,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W32_524(
    #[validate(length(max = 8))]
    pub Vec<String>,
    #[validate(range(min = 1, max = 9))]
    #[schemars(extend("x-r" = [1]))]
    pub Refd,
    /// # Rt
    ///
    /// body
    pub C,
);
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W32_525(
    #[garde(ipv4)]
    #[schemars(with = "Option<A>")]
    pub Option<String>,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W31_1731(
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    pub MultiT,
    pub MultiT,
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub MultiT,
);
#[derive(JsonSchema)]
#[serde(rename_all_fields(serialize = "lowercase", deserialize = "snake_case"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1732 {
    Zz(
        A,
        #[deprecated]
        #[serde(skip_deserializing)]
        TT,
        #[serde(skip_deserializing)]
        #[schemars(extend("readOnly" = false))]
        InlineS,
    ),
    /// # Rt
    ///
    /// body
    FooBar(
        bool,
        #[schemars(extend("type" = "null"))]
        Vec<A>,
    ),
    #[deprecated]
    Ab,
    /// # Rt
    ///
    /// body
    #[deprecated]
    X1Y2(
        /// Doc r.
        InlineS,
        #[schemars(schema_with = "sw1")]
        Box<Option<B>>,
    ),
    #[serde(untagged)]
    Q(
        #[deprecated]
        #[schemars(skip)]
        #[garde(inner(range(max = 5)))]
        bool,
        #[schemars(description = "Rd")]
        #[schemars(regex(pattern = "^r"))]
        String,
    ),
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W32_526(
    #[schemars(with = "Refd")]
    pub Option<Refd>,
);
#[derive(JsonSchema)]
#[serde(rename_all = "snake_case")]
pub struct W32_527 {
    #[schemars(flatten)]
    #[schemars(schema_with = "sup::sw2")]
    pub r#type: UnEnum,
    /// # Only
    #[schemars(extend("type" = "null"))]
    pub x1_y2: Option<Refd>,
    #[schemars(flatten)]
    pub dbl__us: Inner1,
    #[schemars(schema_with = "sw1")]
    pub foo_bar_baz: String,
    #[schemars(regex(pattern = "^r"))]
    #[schemars(default)]
    pub trail_: Option<u32>,
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(extend("x-r" = [1]))]
#[serde(rename_all = "kebab-case")]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
#[serde(deny_unknown_fields)]
pub enum W32_528 {
    /// # Only
    Ab,
    #[schemars(rename(serialize = "vs2", deserialize = "vd2"))]
    X1Y2 {
        r#type: Refd,
        #[deprecated]
        #[validate(range(min = 1, max = 9))]
        #[schemars(title = "")]
        foo_bar: Option<Refd>,
    },
    /// # Rt
    ///
    /// body
    #[serde(untagged)]
    FooBarBaz(
        /// # Rt
        ///
        /// body
        #[schemars(regex(pattern = "^r"))]
        Refd,
    ),
    #[serde(rename = "vn1")]
    #[serde(untagged)]
    #[schemars(title = "Rt")]
    FooBar(
        #[schemars(email)]
        Inner1,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W31_1733(
    #[schemars(inner(length(min = 1)))]
    #[serde(skip_deserializing)]
    pub bool,
    pub Option<A>,
    pub Option<u32>,
    #[schemars(extend("type" = "null"))]
    pub A,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[schemars(extend("x-r" = [1]))]
#[serde(deny_unknown_fields)]
pub enum W31_1734 {
    Q {
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        #[schemars(with = "Option<A>")]
        foo_bar_baz: Refd,
    },
    #[schemars(rename = "type1")]
    X1Y2,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(rename_all_fields(serialize = "kebab-case"))]
pub enum W31_1735 {
    #[schemars(rename_all = "kebab-case")]
    Ab {
        #[schemars(flatten)]
        dbl__us: InnerO,
        #[serde(skip_serializing)]
        #[garde(length(equal = 3))]
        #[schemars(!skip_serializing)]
        a: Vec<String>,
    },
    /// Doc r.
    URLPart(
        u32,
    ),
    /// Doc r.
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(title = "")]
    X1Y2 {
        #[schemars(schema_with = "sw_obj")]
        r#type: MultiT,
        w2: MultiT,
        #[schemars(description = "Rd")]
        a: String,
    },
    /// # Rt
    ///
    /// body
    Foo_Bar,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_1736 {
    /// Doc r.
    #[schemars(extend("title" = "Xt"))]
    #[schemars(!skip_serializing)]
    #[serde(skip_serializing)]
    pub r#type: D,
}
#[derive(JsonSchema)]
#[schemars(description = "Rd")]
#[schemars(transparent)]
pub struct W32_529(
    pub B,
);
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_1737 {
    /// # Rt
    ///
    /// body
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    #[schemars(rename = "vn1")]
    #[schemars(rename_all = "PascalCase")]
    A {
        #[serde(skip_serializing_if = "sif")]
        #[schemars(extend("readOnly" = false))]
        r#type: A,
    },
    #[serde(rename = "type2")]
    W2 {
        /// Doc r.
        #[validate(url)]
        #[schemars(title = "Rt")]
        #[serde(skip_serializing_if = "sif")]
        foo_bar_baz: Vec<String>,
    },
    /// Doc r.
    #[schemars(skip_deserializing)]
    #[schemars(example = 8)]
    Q(
        Vec<A>,
    ),
    /// # Rt
    ///
    /// body
    #[serde(rename_all(serialize = "camelCase"))]
    URLPart {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1738 {
    #[schemars(description = "Rd")]
    A {
        #[deprecated]
        URL_part: B,
        #[serde(skip_serializing_if = "sif")]
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        #[schemars(inner(length(min = 1)))]
        w2: Option<String>,
        #[schemars(skip_serializing_if = "sif")]
        #[serde(rename(serialize = "rs21"))]
        #[schemars(with = "Refd")]
        x1_y2: bool,
    },
    #[serde(rename_all = "camelCase")]
    W2 {
        #[schemars(rename = "$x5")]
        #[schemars(with = "Inner1")]
        r#type: Option<B>,
        /// # Rt
        ///
        /// body
        #[serde(default)]
        #[schemars(skip_serializing)]
        _lead: Refd,
        #[validate(length(max = 8))]
        URL_part: Vec<String>,
    },
    FooBar,
    /// # Only
    #[schemars(rename = "type6")]
    FooBarBaz {

    },
    /// Doc r.
    #[serde(untagged)]
    Ab {
        /// Doc r.
        #[serde(default)]
        #[schemars(rename = "rn2")]
        #[validate(range(min = 1, max = 9))]
        q: A,
        #[schemars(with = "String")]
        #[schemars(transform = tr1)]
        #[serde(rename = "rn3")]
        ab: InlineS,
        #[deprecated]
        #[schemars(skip_deserializing)]
        #[schemars(with = "B")]
        #[serde(rename = "$x4")]
        #[schemars(skip_serializing_if = "sif")]
        r#type: Vec<String>,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum W32_530 {
    #[schemars(description = "Rd")]
    Q(
        #[schemars(contains("c.c"))]
        TT,
    ),
    #[schemars(schema_with = "sw1")]
    Zz {

    },
    #[schemars(rename = "type1")]
    URLPart,
    FooBarBaz {

    },
    W2(
        /// Doc r.
        #[schemars(title = "")]
        Vec<String>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(rename_all = "camelCase")]
#[schemars(deny_unknown_fields)]
pub enum W31_1739 {
    #[serde(rename = "type1")]
    #[schemars(with = "Inner1")]
    Q {

    },
    /// # Rt
    ///
    /// body
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    A {
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        #[serde(flatten)]
        x1_y2: MixEnum,
        /// # Only
        #[garde(required)]
        #[schemars(rename = "rn2")]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(extend("x-r" = [1]))]
        #[schemars(default)]
        q: Option<Refd>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(rename_all = "kebab-case")]
#[schemars(deny_unknown_fields)]
pub enum W31_1740 {
    #[serde(rename = "vn1")]
    Foo_Bar(
        #[validate(range(min = 1, max = 9))]
        Vec<String>,
        #[schemars(with = "String")]
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        InlineS,
    ),
    /// # Only
    #[serde(skip)]
    #[schemars(!skip)]
    W2(
        #[deprecated]
        #[schemars(inner(length(min = 1)))]
        u32,
    ),
    Q(
        #[deprecated]
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        Option<String>,
        #[schemars(extend("type" = "null"))]
        Option<A>,
    ),
    Ab,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(example = 8)]
#[serde(deny_unknown_fields)]
pub enum W32_531 {
    #[schemars(description = "Rd")]
    FooBarBaz(
        #[schemars(contains("c.c"))]
        #[schemars(with = "Inner1")]
        Refd,
    ),
    /// Doc r.
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    URLPart {

    },
}
#[derive(JsonSchema)]
/// # Only
#[schemars(untagged)]
#[schemars(description = "Rd")]
#[serde(rename_all(serialize = "kebab-case", deserialize = "snake_case"))]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
#[serde(deny_unknown_fields)]
pub enum W31_1741 {
    #[schemars(rename = "type1")]
    W2,
    /// Doc r.
    FooBarBaz,
    /// # Only
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[serde(rename = "type2")]
    #[schemars(with = "Inner1")]
    A {
        #[deprecated]
        #[serde(skip)]
        foo_bar: Option<B>,
        #[schemars(default)]
        #[serde(skip_serializing)]
        #[serde(skip_serializing_if = "sif")]
        trail_: Inner1,
    },
}
#[derive(JsonSchema)]
pub struct W32_532(
    #[schemars(contains("c.c"))]
    pub u32,
);
#[derive(JsonSchema)]
#[schemars(title = "")]
pub struct W32_533(
    #[deprecated]
    #[validate(url)]
    pub C,
    #[schemars(regex(pattern = "^r"))]
    pub String,
);
#[derive(JsonSchema)]
/// Doc r.
#[schemars(extend("title" = "Xt"))]
pub struct W32_534(
    /// # Rt
    ///
    /// body
    pub bool,
);
#[derive(JsonSchema)]
pub struct W31_1742(
    /// Doc r.
    #[serde(skip_serializing)]
    #[schemars(description = "Rd")]
    #[schemars(skip_deserializing)]
    pub Option<u32>,
    pub Box<A>,
    /// # Rt
    ///
    /// body
    pub Option<A>,
    #[serde(skip_deserializing)]
    #[serde(skip_serializing)]
    #[schemars(schema_with = "sup::sw2")]
    #[garde(length(equal = 3))]
    pub Box<A>,
);
#[derive(JsonSchema)]
#[schemars(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_1743 {
    #[schemars(skip)]
    Q(
        /// # Rt
        ///
        /// body
        #[validate(range(min = 1, max = 9))]
        D,
    ),
    FooBarBaz {
        /// # Only
        #[garde(ipv4)]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(extend("readOnly" = false))]
        #[serde(skip_deserializing)]
        ab: A,
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        trail_: bool,
        #[schemars(title = "Rt")]
        #[schemars(skip_serializing_if = "sif")]
        foo_bar_baz: Vec<String>,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1744 {
    #[schemars(example = 8)]
    FooBarBaz(
        Vec<String>,
        Box<Option<B>>,
    ),
    /// # Only
    #[serde(rename = "type1")]
    Ab(
        #[schemars(example = 8)]
        #[schemars(skip_deserializing)]
        C,
        /// Doc r.
        #[schemars(with = "Refd")]
        #[schemars(length(min = 1))]
        B,
        Box<A>,
    ),
}
#[derive(JsonSchema)]
#[schemars(description = "Rd")]
pub struct W31_1745(
    pub Option<A>,
    #[schemars(title = "")]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub Option<Refd>,
);
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1746 {
    #[schemars(rename = "type1")]
    #[schemars(schema_with = "sw1")]
    #[schemars(extend("title" = "Xt"))]
    FooBar(
        #[deprecated]
        #[serde(skip)]
        #[schemars(!skip)]
        #[schemars(example = 8)]
        InlineS,
        #[garde(ipv4)]
        #[schemars(title = "Rt")]
        Vec<A>,
    ),
    /// # Only
    W2,
    /// # Rt
    ///
    /// body
    #[schemars(rename = "vn2")]
    Q {
        #[serde(flatten)]
        dbl__us: UnitEnum,
    },
    X1Y2(
        #[deprecated]
        #[schemars(title = "")]
        Refd,
    ),
}
#[derive(JsonSchema)]
pub struct W32_535(
    pub Box<A>,
);
#[derive(JsonSchema)]
#[schemars(rename_all = "camelCase")]
pub struct W31_1747 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub x1_y2: B,
}
#[derive(JsonSchema)]
#[schemars(extend("x-r" = [1]))]
#[schemars(rename_all_fields = "camelCase")]
#[schemars(deny_unknown_fields)]
pub enum W31_1748 {
    #[schemars(skip_serializing)]
    #[schemars(rename_all(serialize = "PascalCase", deserialize = "camelCase"))]
    W2 {
        /// # Rt
        ///
        /// body
        #[schemars(skip_serializing_if = "sif")]
        ab: String,
        #[schemars(schema_with = "sw_obj")]
        #[serde(rename = "type1")]
        #[serde(flatten)]
        foo_bar: SomeMix,
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        zz: String,
    },
    /// # Rt
    ///
    /// body
    #[schemars(extend("x-r" = [1]))]
    A,
    #[schemars(rename = "type2")]
    X1Y2 {
        a: Refd,
    },
    #[schemars(skip)]
    #[serde(rename(serialize = "vs4", deserialize = "vd4"))]
    Foo_Bar {
        q: Option<Refd>,
        #[serde(flatten)]
        foo_bar_baz: FF,
        #[serde(rename = "type3")]
        a: MultiT,
    },
    #[schemars(description = "Rd")]
    FooBar {

    },
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_536(
    #[deprecated]
    #[schemars(title = "Rt")]
    #[schemars(email)]
    pub D,
    /// # Only
    #[schemars(range(min = 2))]
    pub InlineS,
);
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(rename_all_fields(serialize = "lowercase"))]
pub enum W31_1749 {
    #[deprecated]
    #[schemars(title = "")]
    FooBarBaz {

    },
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(title = "Rt")]
    Zz,
    #[serde(rename = "vn2")]
    #[schemars(title = "Rt")]
    X1Y2(
        #[schemars(skip_deserializing)]
        #[serde(skip_serializing)]
        Box<Option<B>>,
        #[schemars(range(min = 2))]
        A,
    ),
    #[schemars(rename = "vn3")]
    #[schemars(example = 8)]
    URLPart,
}
#[derive(JsonSchema)]
/// # Only
pub struct W32_537(
    /// Doc r.
    #[deprecated]
    #[schemars(inner(length(min = 1)))]
    #[schemars(with = "Inner1")]
    pub bool,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W31_1750 {
    #[schemars(description = "Rd")]
    #[serde(rename = "rn1")]
    pub URL_part: Option<Refd>,
    /// # Only
    #[deprecated]
    #[schemars(schema_with = "sup::sw2")]
    #[validate(range(min = 1, max = 9))]
    pub x1_y2: InlineS,
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    #[serde(skip_deserializing)]
    pub dbl__us: OneUnit,
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub r#type: Box<A>,
    #[schemars(inner(length(min = 1)))]
    #[serde(skip_serializing_if = "sif")]
    pub trail_: B,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(rename_all = "kebab-case")]
#[serde(deny_unknown_fields)]
pub enum W32_538 {
    /// # Rt
    ///
    /// body
    #[schemars(title = "")]
    A(
        Box<A>,
    ),
}
#[derive(JsonSchema)]
pub struct W31_1751(
    pub MultiT,
    #[serde(skip_serializing)]
    #[schemars(length(min = 1))]
    #[schemars(!skip_serializing)]
    pub Vec<A>,
);
#[derive(JsonSchema)]
/// Doc r.
#[schemars(title = "Rt")]
pub struct W31_1752 {
    #[schemars(flatten)]
    #[serde(rename = "rn1")]
    #[schemars(skip)]
    #[schemars(default)]
    pub trail_: A,
}
#[derive(JsonSchema, Default)]
/// Doc r.
#[serde(rename_all = "lowercase")]
#[serde(default)]
pub struct W32_539 {
    /// # Rt
    ///
    /// body
    pub a: C,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(rename_all(serialize = "snake_case", deserialize = "PascalCase"))]
#[serde(deny_unknown_fields)]
pub struct W31_1753 {
    #[serde(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub _lead: Option<Refd>,
    #[schemars(skip_serializing_if = "sif")]
    #[garde(length(equal = 3))]
    pub foo_bar_baz: Option<String>,
    pub x1_y2: Option<String>,
    #[schemars(!skip_serializing)]
    #[serde(skip_serializing)]
    pub dbl__us: B,
    #[schemars(inner(length(min = 1)))]
    pub ab: C,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(untagged)]
#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
#[schemars(rename_all_fields = "SCREAMING-KEBAB-CASE")]
#[serde(deny_unknown_fields)]
pub enum W32_540 {
    /// # Only
    Ab(
        #[schemars(with = "String")]
        Option<String>,
    ),
}
#[derive(JsonSchema)]
pub struct W32_541 {
    #[garde(length(equal = 3))]
    #[schemars(default)]
    pub x1_y2: Option<A>,
    #[serde(flatten)]
    pub r#type: Uneval1,
    #[serde(flatten)]
    #[schemars(rename = "R n1")]
    pub foo_bar: Deny1,
    #[serde(flatten)]
    pub a: Enum1,
    #[validate(length(max = 8))]
    pub URL_part: String,
}
#[derive(JsonSchema, Default)]
/// # Only
#[serde(default)]
pub struct W31_1754 {
    #[schemars(inner(length(min = 1)))]
    pub zz: A,
    #[serde(skip_serializing)]
    #[garde(inner(range(max = 5)))]
    pub URL_part: String,
}
#[derive(JsonSchema)]
pub struct W31_1755 {
    /// # Rt
    ///
    /// body
    #[schemars(with = "B")]
    #[serde(default)]
    pub dbl__us: bool,
    #[deprecated]
    #[serde(skip_deserializing)]
    #[serde(skip_serializing)]
    pub r#type: Option<String>,
    #[schemars(skip_serializing_if = "sif")]
    pub w2: TT,
    #[serde(skip_serializing_if = "sif")]
    #[serde(default)]
    pub URL_part: Inner1,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
#[schemars(rename_all_fields(serialize = "UPPERCASE", deserialize = "UPPERCASE"))]
pub enum W31_1756 {
    #[schemars(extend("title" = "Xt"))]
    Q(
        #[schemars(range(min = 2))]
        Refd,
    ),
    #[schemars(rename = "vn1")]
    FooBar(
        /// # Rt
        ///
        /// body
        #[schemars(with = "B")]
        #[schemars(extend("title" = "Xt"))]
        #[schemars(regex(pattern = "^r"))]
        Refd,
    ),
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    X1Y2,
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    URLPart,
    /// # Only
    W2(
        InlineS,
    ),
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W31_1757 {
    #[validate(required)]
    #[schemars(schema_with = "sup::sw2")]
    #[schemars(transform = tr1)]
    pub foo_bar: Option<A>,
    #[deprecated]
    #[serde(default)]
    #[garde(ipv4)]
    #[serde(skip_serializing_if = "sif")]
    pub _lead: u32,
    #[schemars(!skip_serializing)]
    #[serde(skip_serializing)]
    #[serde(default)]
    pub URL_part: A,
    #[schemars(flatten)]
    pub dbl__us: NullUn,
    #[schemars(contains("c.c"))]
    #[schemars(default)]
    pub trail_: Inner1,
}
#[derive(JsonSchema)]
pub struct W31_1758 {
    /// # Only
    #[garde(inner(range(max = 5)))]
    pub zz: InlineS,
    #[schemars(schema_with = "sup::sw2")]
    #[schemars(!skip_serializing)]
    #[serde(skip_serializing)]
    #[serde(flatten)]
    pub a: InnerO,
    #[schemars(length(min = 1))]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(example = 8)]
    pub _lead: Option<A>,
    #[schemars(title = "Rt")]
    #[schemars(rename = "$x1")]
    pub q: bool,
}
#[derive(JsonSchema)]
/// # Only
#[serde(rename_all = "UPPERCASE")]
pub enum W31_1759 {
    #[deprecated]
    Zz {
        #[serde(skip)]
        #[schemars(!skip)]
        foo_bar_baz: Vec<A>,
        #[schemars(flatten)]
        #[schemars(schema_with = "sw1")]
        #[schemars(default)]
        _lead: Option<Enum1>,
        #[deprecated]
        zz: A,
    },
    Q {
        ab: Option<String>,
    },
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(rename_all = "camelCase")]
#[schemars(rename_all_fields = "kebab-case")]
#[serde(deny_unknown_fields)]
pub enum W32_542 {
    /// Doc r.
    #[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
    #[schemars(transform = tr1)]
    URLPart {
        #[deprecated]
        #[schemars(schema_with = "sw_obj")]
        #[schemars(inner(length(min = 1)))]
        #[serde(default)]
        dbl__us: Option<A>,
        /// # Rt
        ///
        /// body
        #[serde(rename(serialize = "rs1", deserialize = "rd1"))]
        #[schemars(default)]
        w2: Option<B>,
        #[schemars(transform = tr1)]
        #[garde(ipv4)]
        q: Refd,
    },
    #[schemars(schema_with = "sw_obj")]
    A {
        #[schemars(length(min = 1))]
        r#type: Refd,
    },
    /// Doc r.
    #[schemars(rename(serialize = "vs2", deserialize = "vd2"))]
    X1Y2(
        Refd,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(extend("x-r" = [1]))]
    Zz {
        /// # Rt
        ///
        /// body
        #[schemars(default)]
        x1_y2: Inner1,
    },
    /// Doc r.
    Foo_Bar(
        /// # Only
        #[schemars(email)]
        Refd,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(rename_all(serialize = "kebab-case"))]
#[serde(rename_all_fields(serialize = "kebab-case", deserialize = "lowercase"))]
pub enum W32_543 {
    #[schemars(extend("title" = "Xt"))]
    FooBarBaz(
        #[validate(url)]
        Refd,
    ),
    /// # Only
    Ab {
        foo_bar_baz: InlineS,
        #[serde(skip_serializing_if = "sif")]
        #[schemars(extend("title" = "Xt"))]
        #[schemars(rename(serialize = "rs21"))]
        #[schemars(default)]
        w2: Inner1,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "UPPERCASE"))]
pub enum W32_544 {
    #[schemars(rename_all = "camelCase")]
    #[schemars(title = "")]
    Foo_Bar {
        #[serde(rename(serialize = "rs21"))]
        r#type: InlineS,
        #[serde(flatten)]
        dbl__us: PatS,
    },
    /// Doc r.
    #[serde(rename_all(serialize = "kebab-case", deserialize = "PascalCase"))]
    #[schemars(title = "Rt")]
    FooBar {

    },
    /// Doc r.
    #[schemars(title = "")]
    FooBarBaz(
        #[schemars(with = "B")]
        #[schemars(regex(pattern = "^r"))]
        TT,
    ),
    URLPart {
        #[serde(rename = "rn2")]
        #[serde(default)]
        a: Inner1,
    },
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
pub enum W32_545 {
    W2 {
        r#type: bool,
        #[schemars(extend("x-r" = [1]))]
        #[serde(default)]
        #[garde(inner(range(max = 5)))]
        a: Option<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_546 {
    #[serde(rename_all(serialize = "UPPERCASE", deserialize = "camelCase"))]
    URLPart {

    },
    /// # Rt
    ///
    /// body
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    Ab,
}
#[derive(JsonSchema)]
#[schemars(untagged)]
#[schemars(title = "")]
#[serde(rename_all_fields(serialize = "camelCase"))]
pub enum W31_1760 {
    /// # Rt
    ///
    /// body
    #[schemars(example = 8)]
    Ab {
        #[serde(rename(serialize = "rs21"))]
        a: String,
    },
    #[deprecated]
    #[schemars(skip_serializing)]
    URLPart(
        #[schemars(inner(length(min = 1)))]
        D,
        #[schemars(schema_with = "sup::sw2")]
        #[schemars(regex(pattern = "^r"))]
        u32,
    ),
    FooBarBaz {
        #[schemars(rename = "rn2")]
        ab: TT,
        #[schemars(with = "Inner1")]
        #[schemars(skip_serializing_if = "sif")]
        a: Box<Option<B>>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(extend("title" = "Xt"))]
#[schemars(rename_all(serialize = "camelCase", deserialize = "kebab-case"))]
#[serde(rename_all_fields = "UPPERCASE")]
#[schemars(deny_unknown_fields)]
pub enum W32_547 {
    /// # Only
    #[deprecated]
    #[schemars(title = "Rt")]
    FooBarBaz,
    /// Doc r.
    Zz(
        #[schemars(with = "Option<A>")]
        Refd,
        Refd,
    ),
    /// # Rt
    ///
    /// body
    X1Y2(
        Box<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(extend("title" = "Xt"))]
pub enum W32_548 {
    Ab {
        /// # Only
        #[schemars(with = "Inner1")]
        #[serde(skip_serializing_if = "sif")]
        zz: Box<A>,
        #[deprecated]
        #[schemars(with = "Option<A>")]
        w2: Refd,
        #[serde(default)]
        x1_y2: A,
    },
    /// Doc r.
    X1Y2(
        #[schemars(with = "String")]
        C,
    ),
    #[schemars(extend("title" = "Xt"))]
    FooBarBaz {
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(flatten)]
        dbl__us: NestedDeep,
        #[schemars(description = "Rd")]
        #[validate(length(max = 8))]
        trail_: Option<B>,
    },
    Q(
        TT,
    ),
    /// # Only
    #[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
    A {
        #[serde(default)]
        #[validate(range(min = 1, max = 9))]
        q: Option<A>,
        /// # Rt
        ///
        /// body
        #[schemars(rename = "R n1")]
        r#type: Refd,
    },
}
#[derive(JsonSchema)]
/// # Only
#[serde(untagged)]
#[schemars(rename_all(serialize = "camelCase", deserialize = "PascalCase"))]
pub enum W31_1761 {
    /// # Rt
    ///
    /// body
    #[schemars(rename = "type1")]
    Ab {

    },
    /// # Only
    Zz(
        /// Doc r.
        String,
        #[deprecated]
        #[serde(skip_serializing)]
        Option<String>,
        /// # Rt
        ///
        /// body
        #[serde(skip_deserializing)]
        #[schemars(extend("x-r" = [1]))]
        #[schemars(with = "Inner1")]
        C,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W32_549 {
    Q(
        #[schemars(length(min = 1))]
        Box<Option<B>>,
    ),
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(deny_unknown_fields)]
pub enum W31_1762 {
    /// # Rt
    ///
    /// body
    A {
        /// Doc r.
        #[serde(rename = "R n1")]
        w2: Box<A>,
        #[serde(flatten)]
        ab: Deny1,
        #[serde(skip)]
        #[schemars(inner(length(min = 1)))]
        #[schemars(rename = "R n2")]
        #[schemars(!skip)]
        URL_part: Option<A>,
    },
    #[serde(rename(serialize = "vs3", deserialize = "vd3"))]
    #[schemars(example = 8)]
    X1Y2 {

    },
    /// Doc r.
    #[serde(rename = "vn4")]
    Ab {
        #[serde(skip_serializing_if = "sif")]
        _lead: Refd,
        ab: TT,
        #[schemars(schema_with = "sup::sw2")]
        #[validate(length(max = 8))]
        dbl__us: Refd,
    },
    /// # Only
    #[serde(untagged)]
    Zz,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(extend("title" = "Xt"))]
#[serde(transparent)]
pub struct W32_550(
    #[schemars(with = "B")]
    #[schemars(extend("title" = "Xt"))]
    pub Option<String>,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W32_551(
    pub A,
    pub Vec<A>,
    pub TT,
);
#[derive(JsonSchema)]
/// # Only
#[schemars(title = "")]
pub enum W31_1763 {
    /// # Rt
    ///
    /// body
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    Q {
        #[schemars(email)]
        #[schemars(with = "B")]
        URL_part: Option<Refd>,
        #[schemars(contains("c.c"))]
        #[validate(url)]
        #[serde(default)]
        q: TT,
        #[schemars(title = "Rt")]
        #[validate(required)]
        #[schemars(skip)]
        foo_bar: Option<A>,
    },
    Zz {
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        trail_: InlineS,
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        #[schemars(rename(serialize = "rs22"))]
        q: SomeMix,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(deny_unknown_fields)]
pub struct W32_552 {
    #[schemars(default)]
    #[garde(inner(range(max = 5)))]
    pub _lead: D,
    pub a: Vec<String>,
    #[schemars(flatten)]
    pub foo_bar_baz: Option<Inner1>,
    #[serde(flatten)]
    pub dbl__us: Inner1,
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(untagged)]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
pub enum W31_1764 {
    /// Doc r.
    #[deprecated]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    URLPart {
        /// # Rt
        ///
        /// body
        #[serde(rename = "type1")]
        #[validate(length(max = 8))]
        #[schemars(email)]
        trail_: Option<u32>,
        #[serde(skip_serializing)]
        #[schemars(rename = "R n2")]
        #[serde(default)]
        #[serde(flatten)]
        r#type: Inner2,
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        foo_bar: bool,
    },
    #[deprecated]
    #[serde(rename_all(serialize = "kebab-case"))]
    #[schemars(title = "Rt")]
    FooBarBaz {
        #[schemars(regex(pattern = "^r"))]
        #[schemars(skip)]
        URL_part: Box<Option<B>>,
        #[serde(flatten)]
        #[schemars(default)]
        #[schemars(skip)]
        #[schemars(skip_serializing_if = "sif")]
        foo_bar: Refd,
        w2: u32,
    },
    /// Doc r.
    W2,
    #[deprecated]
    FooBar,
    X1Y2 {
        #[serde(skip_serializing_if = "sif")]
        _lead: B,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(tag = "tg")]
#[schemars(description = "Rd")]
#[schemars(rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "lowercase"))]
#[serde(rename_all_fields(serialize = "SCREAMING_SNAKE_CASE", deserialize = "PascalCase"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1765 {
    #[schemars(rename = "type1")]
    #[schemars(extend("x-r" = [1]))]
    Q(
        #[schemars(contains("c.c"))]
        Refd,
    ),
    #[serde(rename = "vn2")]
    Zz {

    },
    #[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
    #[schemars(schema_with = "sw1")]
    Foo_Bar {
        #[serde(rename(serialize = "rs3", deserialize = "rd3"))]
        URL_part: Option<B>,
        #[schemars(description = "Rd")]
        #[schemars(email)]
        a: B,
    },
    #[serde(rename_all = "camelCase")]
    #[serde(untagged)]
    X1Y2 {

    },
    #[serde(skip_serializing)]
    #[serde(untagged)]
    A {
        #[serde(default)]
        trail_: MultiT,
        /// # Only
        #[schemars(rename(serialize = "rs4", deserialize = "rd4"))]
        #[serde(skip_serializing_if = "sif")]
        x1_y2: C,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(rename_all_fields(serialize = "PascalCase"))]
pub enum W32_553 {
    /// # Only
    Foo_Bar(
        #[schemars(extend("type" = "null"))]
        #[schemars(with = "String")]
        Vec<A>,
    ),
    Zz,
    /// Doc r.
    #[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
    #[schemars(extend("title" = "Xt"))]
    URLPart {
        #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
        #[schemars(flatten)]
        trail_: Nested1,
        #[deprecated]
        #[validate(url)]
        #[schemars(extend("x-r" = [1]))]
        x1_y2: Option<String>,
    },
}
#[derive(JsonSchema)]
pub struct W32_554(
    #[schemars(with = "String")]
    pub Box<A>,
    #[schemars(regex(pattern = "^r"))]
    pub Box<A>,
    #[schemars(range(min = 2))]
    pub Vec<String>,
    #[deprecated]
    pub Option<Refd>,
);
#[derive(JsonSchema, Default)]
/// # Only
#[schemars(deny_unknown_fields)]
#[serde(default)]
pub struct W32_555 {
    /// # Only
    #[deprecated]
    #[schemars(rename = "zz91")]
    #[garde(ipv4)]
    pub zz: Option<A>,
    /// # Rt
    ///
    /// body
    pub trail_: Refd,
    #[schemars(with = "Inner1")]
    #[schemars(flatten)]
    pub _lead: Enum2,
    /// # Rt
    ///
    /// body
    #[schemars(description = "Rd")]
    #[schemars(inner(length(min = 1)))]
    pub foo_bar_baz: Vec<String>,
    /// # Only
    #[schemars(extend("type" = "null"))]
    pub r#type: C,
}
#[derive(JsonSchema)]
pub struct W32_556(
    #[schemars(with = "String")]
    pub Option<A>,
    /// Doc r.
    #[schemars(with = "B")]
    pub Option<u32>,
    pub B,
    #[garde(length(equal = 3))]
    pub Option<B>,
);
#[derive(JsonSchema)]
/// Doc r.
#[schemars(rename_all = "camelCase")]
#[schemars(rename_all_fields = "snake_case")]
pub enum W31_1766 {
    #[schemars(skip_serializing)]
    #[schemars(example = 8)]
    Q {
        /// Doc r.
        #[schemars(default)]
        w2: C,
        #[deprecated]
        #[schemars(inner(length(min = 1)))]
        ab: B,
        /// # Rt
        ///
        /// body
        foo_bar: Inner1,
    },
    /// # Rt
    ///
    /// body
    #[schemars(title = "Rt")]
    Foo_Bar {
        #[schemars(flatten)]
        ab: OneEx,
        #[schemars(default)]
        #[schemars(regex(pattern = "^r"))]
        URL_part: Vec<String>,
    },
    /// # Rt
    ///
    /// body
    #[schemars(rename(serialize = "vs2", deserialize = "vd2"))]
    FooBar {
        #[schemars(description = "Rd")]
        a: InlineS,
    },
    #[deprecated]
    #[serde(rename = "vn1")]
    #[serde(untagged)]
    Ab {

    },
}
#[derive(JsonSchema)]
#[schemars(untagged)]
pub enum W31_1767 {
    FooBarBaz(
        #[schemars(regex(pattern = "^r"))]
        #[garde(ipv4)]
        B,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(example = 8)]
    Q,
    /// # Rt
    ///
    /// body
    #[schemars(skip_serializing)]
    Zz {
        #[serde(rename(serialize = "rs21"))]
        #[schemars(contains("c.c"))]
        q: Option<A>,
        #[deprecated]
        #[schemars(schema_with = "sup::sw2")]
        r#type: B,
    },
    /// # Rt
    ///
    /// body
    URLPart(
        bool,
    ),
    #[serde(rename = "type2")]
    #[schemars(schema_with = "sw_obj")]
    Ab {

    },
}
#[derive(JsonSchema)]
/// # Only
pub struct W31_1768(
    #[validate(length(max = 8))]
    pub B,
    #[schemars(skip)]
    #[schemars(contains("c.c"))]
    #[schemars(schema_with = "sw_obj")]
    pub bool,
    #[schemars(skip)]
    #[serde(skip_deserializing)]
    pub Option<B>,
);
#[derive(JsonSchema)]
/// # Only
#[schemars(extend("title" = "Xt"))]
pub struct W31_1769 {
    #[serde(flatten)]
    #[serde(skip_deserializing)]
    #[schemars(rename = "type1")]
    pub q: PatS,
}
#[derive(JsonSchema)]
#[schemars(rename_all(serialize = "PascalCase"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1770 {
    X1Y2(
        #[garde(length(equal = 3))]
        Option<Refd>,
        #[schemars(!skip)]
        #[serde(skip)]
        #[schemars(extend("type" = "null"))]
        Option<B>,
        /// Doc r.
        #[schemars(extend("readOnly" = false))]
        A,
    ),
    #[serde(skip)]
    #[schemars(with = "B")]
    FooBar {
        /// Doc r.
        #[deprecated]
        #[schemars(extend("x-r" = [1]))]
        #[validate(url)]
        #[schemars(skip_serializing_if = "sif")]
        #[serde(rename = "type1")]
        r#type: B,
    },
    URLPart(
        /// # Only
        Box<Option<B>>,
        /// # Only
        #[schemars(!skip_deserializing)]
        #[serde(skip_deserializing)]
        Vec<String>,
    ),
    #[schemars(schema_with = "sw1")]
    #[serde(untagged)]
    #[schemars(description = "Rd")]
    A(
        #[schemars(regex(pattern = "^r"))]
        #[schemars(skip_deserializing)]
        #[schemars(schema_with = "sup::sw2")]
        Option<Refd>,
        Option<Refd>,
        #[schemars(length(min = 1))]
        #[schemars(schema_with = "sup::sw2")]
        Option<String>,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "UPPERCASE")]
pub enum W32_557 {
    /// Doc r.
    Q(
        /// Doc r.
        InlineS,
        D,
    ),
    /// # Only
    #[serde(untagged)]
    URLPart {
        trail_: A,
        /// Doc r.
        #[deprecated]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(range(min = 2))]
        foo_bar_baz: Refd,
    },
}
#[derive(JsonSchema)]
#[schemars(title = "Rt")]
#[schemars(rename_all(serialize = "camelCase"))]
pub struct W32_558 {
    #[garde(inner(range(max = 5)))]
    #[schemars(transform = tr1)]
    pub x1_y2: InlineS,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(schema_with = "sup::sw2")]
    pub zz: Box<A>,
    /// # Only
    pub w2: String,
    #[schemars(rename = "type1")]
    #[schemars(schema_with = "sup::sw2")]
    pub trail_: InlineS,
    #[schemars(flatten)]
    #[schemars(schema_with = "sup::sw2")]
    #[schemars(rename = "R n2")]
    pub r#type: MixEnum,
}
#[derive(JsonSchema)]
#[schemars(title = "")]
#[schemars(rename_all_fields = "kebab-case")]
#[schemars(deny_unknown_fields)]
pub enum W32_559 {
    #[schemars(rename = "vn1")]
    #[schemars(extend("x-r" = [1]))]
    URLPart(
        #[schemars(with = "B")]
        Option<A>,
        /// # Only
        #[schemars(extend("readOnly" = false))]
        #[garde(ipv4)]
        #[schemars(with = "B")]
        Refd,
    ),
    #[schemars(rename(serialize = "vs3", deserialize = "vd3"))]
    FooBarBaz {
        /// Doc r.
        #[schemars(default)]
        #[schemars(rename = "zz92")]
        #[garde(ipv4)]
        zz: MultiT,
    },
    #[serde(rename = "type5")]
    Ab {
        #[serde(flatten)]
        _lead: Option<Inner1>,
        #[serde(flatten)]
        x1_y2: Option<Inner1>,
    },
    #[schemars(rename(serialize = "vs4", deserialize = "vd4"))]
    #[serde(untagged)]
    #[schemars(extend("x-r" = [1]))]
    FooBar(
        #[schemars(title = "")]
        B,
        #[validate(url)]
        Option<A>,
        #[schemars(extend("type" = "null"))]
        Inner1,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(rename_all(serialize = "lowercase", deserialize = "kebab-case"))]
pub struct W31_1771 {
    #[schemars(skip_deserializing)]
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub a: A,
    #[schemars(rename = "rn1")]
    #[schemars(default)]
    #[schemars(flatten)]
    #[serde(skip)]
    pub trail_: Box<Inner2>,
    pub URL_part: Inner1,
    #[schemars(default)]
    pub foo_bar_baz: u32,
    pub r#type: TT,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(deny_unknown_fields)]
pub enum W32_560 {
    #[deprecated]
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    Q,
    /// Doc r.
    #[serde(rename_all(serialize = "lowercase", deserialize = "lowercase"))]
    #[schemars(title = "Rt")]
    Foo_Bar {
        #[schemars(transform = tr1)]
        foo_bar: u32,
    },
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(transform = tr1)]
#[serde(deny_unknown_fields)]
pub enum W31_1772 {
    #[schemars(title = "")]
    X1Y2 {
        q: Box<Option<B>>,
        /// Doc r.
        #[schemars(skip_deserializing)]
        #[schemars(extend("x-r" = [1]))]
        x1_y2: Option<B>,
    },
    /// # Only
    #[schemars(rename_all(serialize = "SCREAMING-KEBAB-CASE"))]
    FooBar {
        #[serde(skip_serializing_if = "sif")]
        #[schemars(default)]
        #[schemars(email)]
        #[schemars(extend("title" = "Xt"))]
        w2: Option<B>,
        #[garde(ipv4)]
        #[serde(default)]
        #[schemars(extend("title" = "Xt"))]
        #[schemars(schema_with = "sw1")]
        q: B,
    },
    /// Doc r.
    #[schemars(rename = "type1")]
    Foo_Bar {
        #[schemars(default)]
        #[validate(range(min = 1, max = 9))]
        dbl__us: Box<Option<B>>,
        #[deprecated]
        #[schemars(with = "String")]
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        URL_part: Option<String>,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(example = 8)]
pub struct W32_561(
    pub MultiT,
);
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[schemars(transform = tr1)]
pub enum W31_1773 {
    FooBar {

    },
    #[serde(skip)]
    #[schemars(!skip)]
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    Q,
}
#[derive(JsonSchema)]
/// # Only
#[serde(deny_unknown_fields)]
pub struct W31_1774 {
    #[serde(rename = "rn1")]
    pub URL_part: B,
    /// # Only
    #[schemars(skip_deserializing)]
    #[serde(skip_serializing)]
    pub w2: Box<Option<B>>,
    #[schemars(contains("c.c"))]
    #[schemars(schema_with = "sw_obj")]
    #[serde(default)]
    pub foo_bar: A,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(transform = tr1)]
#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
pub struct W32_562 {
    /// # Only
    pub q: D,
    #[schemars(rename = "rn1")]
    pub foo_bar_baz: B,
    /// # Only
    pub a: D,
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
pub enum W31_1775 {
    #[schemars(description = "Rd")]
    Foo_Bar(
        C,
    ),
    /// # Only
    #[schemars(rename = "type1")]
    #[schemars(example = 8)]
    X1Y2(
        #[schemars(length(min = 1))]
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        Vec<A>,
        /// Doc r.
        Option<String>,
        #[schemars(contains("c.c"))]
        bool,
    ),
    /// # Only
    Ab(
        #[schemars(length(min = 1))]
        Option<u32>,
    ),
    #[schemars(example = 8)]
    FooBarBaz {
        #[deprecated]
        #[schemars(schema_with = "sw1")]
        trail_: InlineS,
        #[schemars(description = "Rd")]
        #[schemars(skip_serializing_if = "sif")]
        URL_part: TT,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(rename_all = "camelCase")]
pub enum W31_1776 {
    URLPart,
    /// Doc r.
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Foo_Bar(
        Vec<A>,
        Vec<String>,
        Option<Refd>,
    ),
    #[schemars(schema_with = "sw1")]
    #[schemars(extend("title" = "Xt"))]
    Ab(
        #[schemars(with = "B")]
        Option<A>,
    ),
    /// # Only
    #[schemars(rename = "type1")]
    #[schemars(description = "Rd")]
    Zz(
        /// # Only
        #[schemars(with = "Inner1")]
        D,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(transform = tr1)]
pub enum W31_1777 {
    #[serde(skip)]
    #[schemars(!skip)]
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    Q {
        #[schemars(skip_serializing_if = "sif")]
        #[serde(flatten)]
        #[serde(rename(serialize = "rs21"))]
        foo_bar: NoMix,
        #[serde(rename = "zz92")]
        #[serde(flatten)]
        zz: InnerO,
        #[schemars(title = "Rt")]
        #[serde(skip_serializing_if = "sif")]
        #[garde(length(equal = 3))]
        trail_: B,
    },
    X1Y2,
    #[serde(rename(serialize = "vs3", deserialize = "vd3"))]
    #[schemars(transform = tr1)]
    Ab {

    },
    #[schemars(rename(serialize = "vs4", deserialize = "vd4"))]
    #[schemars(extend("title" = "Xt"))]
    A,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W31_1778(
    #[schemars(extend("type" = "null"))]
    #[validate(url)]
    pub TT,
    /// # Only
    pub String,
    pub String,
    #[validate(required)]
    #[validate(range(min = 1, max = 9))]
    #[serde(skip)]
    pub Option<A>,
);
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_1779 {
    /// # Only
    pub foo_bar: Option<B>,
    #[schemars(default)]
    #[schemars(!skip_serializing)]
    #[serde(skip_serializing)]
    pub _lead: MultiT,
    #[schemars(description = "Rd")]
    #[schemars(range(min = 2))]
    #[schemars(default)]
    pub q: C,
    #[schemars(default)]
    pub dbl__us: Refd,
    #[validate(range(min = 1, max = 9))]
    pub w2: TT,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(extend("x-r" = [1]))]
#[serde(rename_all(serialize = "PascalCase"))]
#[serde(deny_unknown_fields)]
pub enum W32_563 {
    /// # Only
    #[schemars(with = "B")]
    #[schemars(title = "")]
    Foo_Bar {
        w2: MultiT,
        trail_: u32,
    },
    /// # Rt
    ///
    /// body
    X1Y2,
    /// Doc r.
    #[schemars(title = "")]
    W2(
        /// # Rt
        ///
        /// body
        #[schemars(description = "Rd")]
        #[garde(length(equal = 3))]
        C,
    ),
    A,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(rename_all(serialize = "snake_case", deserialize = "snake_case"))]
#[serde(deny_unknown_fields)]
pub enum W31_1780 {
    /// Doc r.
    #[schemars(skip_serializing)]
    Foo_Bar(
        #[schemars(regex(pattern = "^r"))]
        #[schemars(title = "")]
        B,
    ),
    /// # Only
    #[schemars(schema_with = "sw_obj")]
    Q {
        #[schemars(regex(pattern = "^r"))]
        #[serde(skip_deserializing)]
        #[schemars(with = "Option<A>")]
        trail_: bool,
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(example = 8)]
        #[schemars(length(min = 1))]
        w2: Inner1,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(extend("x-r" = [1]))]
#[serde(rename_all_fields(serialize = "snake_case", deserialize = "UPPERCASE"))]
pub enum W31_1781 {
    Foo_Bar(
        #[schemars(skip_deserializing)]
        #[schemars(schema_with = "sup::sw2")]
        #[validate(url)]
        Option<u32>,
        /// Doc r.
        #[schemars(!skip_deserializing)]
        #[serde(skip_deserializing)]
        Vec<A>,
        /// # Only
        Option<Refd>,
    ),
    #[schemars(example = 8)]
    URLPart(
        /// # Rt
        ///
        /// body
        Refd,
        #[schemars(with = "Inner1")]
        Box<A>,
        Inner1,
    ),
    X1Y2 {

    },
    /// # Rt
    ///
    /// body
    #[serde(rename_all(serialize = "camelCase", deserialize = "UPPERCASE"))]
    #[serde(untagged)]
    Ab {

    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(rename_all(serialize = "camelCase", deserialize = "PascalCase"))]
#[serde(deny_unknown_fields)]
pub struct W31_1782 {
    /// Doc r.
    #[serde(skip_serializing_if = "sif")]
    pub w2: Option<String>,
    /// # Rt
    ///
    /// body
    #[schemars(skip)]
    #[serde(skip_deserializing)]
    pub foo_bar: Box<A>,
    #[schemars(extend("title" = "Xt"))]
    #[schemars(regex(pattern = "^r"))]
    pub dbl__us: Refd,
}
#[derive(JsonSchema)]
#[schemars(untagged)]
#[schemars(rename_all_fields(serialize = "UPPERCASE", deserialize = "camelCase"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1783 {
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    Ab(
        Vec<String>,
    ),
    #[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "SCREAMING_SNAKE_CASE"))]
    X1Y2 {
        #[schemars(rename = "rn2")]
        #[schemars(skip_serializing_if = "sif")]
        #[serde(flatten)]
        ab: Box<Inner2>,
        foo_bar: Vec<String>,
    },
    Q(
        B,
        #[schemars(skip_deserializing)]
        TT,
    ),
    /// # Rt
    ///
    /// body
    Foo_Bar {

    },
}
#[derive(JsonSchema)]
pub struct W32_564(
    #[validate(length(max = 8))]
    pub Vec<A>,
);
#[derive(JsonSchema)]
/// # Only
pub enum W31_1784 {
    /// # Only
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[schemars(schema_with = "sw_obj")]
    #[schemars(extend("x-r" = [1]))]
    Ab(
        Option<Refd>,
    ),
    /// # Rt
    ///
    /// body
    Foo_Bar {
        #[serde(default)]
        q: u32,
    },
    #[schemars(rename = "vn1")]
    URLPart,
    #[schemars(rename = "type2")]
    #[serde(rename_all = "snake_case")]
    W2 {
        w2: Option<Refd>,
        /// Doc r.
        #[schemars(range(min = 2))]
        #[schemars(skip_serializing_if = "sif")]
        foo_bar: u32,
        /// # Only
        #[schemars(extend("type" = "null"))]
        _lead: C,
    },
    /// Doc r.
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    FooBarBaz {
        #[serde(default)]
        #[serde(rename(serialize = "rs3", deserialize = "rd3"))]
        trail_: Option<A>,
        #[schemars(schema_with = "sw_obj")]
        r#type: Option<A>,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(deny_unknown_fields)]
pub enum W31_1785 {
    /// Doc r.
    URLPart {
        #[serde(skip)]
        q: Option<String>,
    },
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    #[serde(rename_all(serialize = "PascalCase", deserialize = "UPPERCASE"))]
    X1Y2 {
        #[deprecated]
        #[serde(default)]
        q: Option<B>,
        #[serde(rename(serialize = "rs1", deserialize = "rd1"))]
        URL_part: Box<A>,
    },
    Q,
    #[serde(rename(serialize = "vs3", deserialize = "vd3"))]
    FooBar(
        #[schemars(with = "Inner1")]
        #[schemars(title = "Rt")]
        #[validate(length(max = 8))]
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[schemars(untagged)]
pub enum W31_1786 {
    /// # Only
    #[serde(rename = "vn1")]
    #[schemars(description = "Rd")]
    FooBar {
        #[serde(default)]
        #[schemars(email)]
        x1_y2: Option<u32>,
        #[schemars(extend("readOnly" = false))]
        #[schemars(skip_serializing_if = "sif")]
        foo_bar: Refd,
        #[schemars(with = "Option<A>")]
        #[garde(length(equal = 3))]
        #[schemars(extend("x-r" = [1]))]
        w2: Box<Option<B>>,
    },
    /// Doc r.
    #[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "kebab-case"))]
    #[schemars(example = 8)]
    FooBarBaz {
        #[schemars(skip_serializing_if = "sif")]
        #[validate(length(max = 8))]
        w2: Vec<A>,
    },
    Zz(
        /// # Only
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        Option<A>,
        #[deprecated]
        #[schemars(description = "Rd")]
        InlineS,
    ),
    /// Doc r.
    Ab {
        #[serde(flatten)]
        #[serde(skip_serializing_if = "sif")]
        #[serde(default)]
        #[schemars(schema_with = "sup::sw2")]
        #[serde(skip_deserializing)]
        q: OneTag,
        #[schemars(skip_serializing_if = "sif")]
        a: Option<Refd>,
    },
    #[schemars(rename = "vn2")]
    A(
        /// # Only
        #[schemars(title = "Rt")]
        C,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1787 {
    Ab,
    /// # Only
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Zz {
        #[serde(flatten)]
        foo_bar: UnEnum,
    },
    #[schemars(transform = tr1)]
    FooBarBaz(
        /// Doc r.
        #[schemars(transform = tr1)]
        #[schemars(skip)]
        #[schemars(schema_with = "sw1")]
        Vec<String>,
        #[schemars(regex(pattern = "^r"))]
        #[serde(skip_serializing)]
        MultiT,
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(transform = tr1)]
#[schemars(rename_all = "camelCase")]
pub enum W31_1788 {
    #[serde(rename = "vn1")]
    Zz,
    #[schemars(title = "Rt")]
    FooBar {

    },
    /// # Rt
    ///
    /// body
    Foo_Bar(
        /// # Rt
        ///
        /// body
        String,
    ),
    /// # Only
    #[schemars(with = "B")]
    W2(
        InlineS,
        #[schemars(title = "Rt")]
        #[schemars(with = "Refd")]
        bool,
        /// # Rt
        ///
        /// body
        Option<A>,
    ),
    #[deprecated]
    #[schemars(example = 8)]
    URLPart(
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        A,
        MultiT,
    ),
}
#[derive(JsonSchema, Default)]
/// # Only
#[schemars(deny_unknown_fields)]
#[serde(default)]
pub struct W32_565 {
    #[schemars(extend("readOnly" = false))]
    pub r#type: A,
    /// Doc r.
    #[validate(length(max = 8))]
    #[schemars(default)]
    pub dbl__us: Option<A>,
    #[serde(default)]
    #[schemars(title = "")]
    pub ab: Box<Option<B>>,
    #[serde(flatten)]
    pub zz: Nested1,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_566 {
    #[schemars(transform = tr1)]
    #[schemars(range(min = 2))]
    pub _lead: Option<String>,
}
#[derive(JsonSchema)]
pub struct W32_567(
    #[schemars(extend("type" = "null"))]
    pub InlineS,
    pub MultiT,
    #[schemars(transform = tr1)]
    #[garde(ipv4)]
    pub D,
    #[garde(ipv4)]
    pub u32,
);
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_568(
    /// # Rt
    ///
    /// body
    #[schemars(with = "Refd")]
    pub B,
);
#[derive(JsonSchema)]
/// # Only
#[schemars(untagged)]
#[schemars(extend("x-r" = [1]))]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum W31_1789 {
    /// # Only
    W2 {
        #[schemars(default)]
        #[schemars(schema_with = "sw_obj")]
        #[schemars(skip_serializing)]
        #[serde(rename = "$x1")]
        #[schemars(title = "Rt")]
        w2: Vec<String>,
    },
    /// # Only
    URLPart(
        #[garde(ipv4)]
        Vec<String>,
    ),
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    FooBar(
        C,
    ),
    /// # Only
    Foo_Bar,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
pub enum W32_569 {
    /// # Only
    #[schemars(transform = tr1)]
    URLPart,
    FooBar(
        /// # Rt
        ///
        /// body
        Option<u32>,
    ),
    #[serde(rename_all = "lowercase")]
    Foo_Bar {
        /// # Rt
        ///
        /// body
        #[serde(rename = "R n1")]
        foo_bar: Option<String>,
        /// Doc r.
        #[deprecated]
        #[schemars(skip_serializing_if = "sif")]
        #[serde(rename = "$x2")]
        #[schemars(regex(pattern = "^r"))]
        #[validate(url)]
        URL_part: InlineS,
    },
    #[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
    A {
        q: B,
        #[serde(rename(serialize = "rs23"))]
        _lead: InlineS,
    },
}
#[derive(JsonSchema)]
#[schemars(transform = tr1)]
#[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE"))]
#[serde(deny_unknown_fields)]
pub struct W32_570 {
    #[validate(length(max = 8))]
    #[schemars(schema_with = "sw_obj")]
    pub URL_part: Refd,
}
#[derive(JsonSchema)]
#[schemars(title = "")]
pub struct W32_571 {
    /// # Only
    #[garde(required)]
    #[serde(skip_serializing_if = "sif")]
    pub trail_: Option<Refd>,
}
#[derive(JsonSchema)]
pub struct W32_572(
    #[deprecated]
    #[schemars(schema_with = "sup::sw2")]
    pub Option<u32>,
);
#[derive(JsonSchema)]
/// # Only
#[serde(transparent)]
pub struct W32_573(
    #[schemars(range(min = 2))]
    pub Option<String>,
);
#[derive(JsonSchema)]
/// Doc r.
pub struct W31_1790 {
    pub x1_y2: Vec<A>,
    #[schemars(rename = "R n1")]
    pub trail_: Option<String>,
    #[schemars(skip)]
    pub URL_part: Vec<A>,
    #[schemars(default)]
    pub _lead: C,
    #[serde(flatten)]
    #[schemars(default)]
    #[schemars(skip_serializing_if = "sif")]
    pub dbl__us: NoMix,
}
#[derive(JsonSchema)]
#[schemars(title = "")]
#[schemars(deny_unknown_fields)]
pub struct W31_1791 {
    #[schemars(skip_serializing_if = "sif")]
    #[serde(default)]
    #[garde(inner(range(max = 5)))]
    pub r#type: A,
    #[schemars(rename = "$x1")]
    pub URL_part: u32,
    #[schemars(default)]
    #[schemars(regex(pattern = "^r"))]
    #[schemars(inner(length(min = 1)))]
    pub foo_bar_baz: D,
    #[serde(skip_deserializing)]
    #[schemars(contains("c.c"))]
    #[serde(skip_serializing)]
    pub ab: Vec<A>,
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(extend("title" = "Xt"))]
pub struct W31_1792(
    #[schemars(title = "Rt")]
    pub Box<A>,
    /// Doc r.
    #[garde(ipv4)]
    pub Option<u32>,
    #[serde(skip_deserializing)]
    pub D,
    #[schemars(with = "B")]
    pub Option<B>,
);
#[derive(JsonSchema)]
/// Doc r.
#[schemars(description = "Rd")]
pub struct W32_574(
    #[deprecated]
    #[schemars(length(min = 1))]
    pub A,
    #[validate(length(max = 8))]
    pub Box<A>,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(transparent)]
pub struct W32_575(
    #[schemars(extend("x-r" = [1]))]
    #[schemars(with = "Option<A>")]
    pub Inner1,
);
#[derive(JsonSchema)]
#[schemars(untagged)]
#[schemars(rename_all = "UPPERCASE")]
#[schemars(rename_all_fields(serialize = "PascalCase"))]
pub enum W31_1793 {
    /// # Only
    Ab {
        #[schemars(skip)]
        #[serde(default)]
        #[serde(skip_deserializing)]
        w2: Vec<String>,
    },
    /// # Only
    #[serde(rename_all = "UPPERCASE")]
    FooBarBaz {
        #[validate(length(max = 8))]
        q: Box<A>,
        /// Doc r.
        #[schemars(example = 8)]
        #[schemars(skip_serializing_if = "sif")]
        zz: Option<B>,
    },
    #[schemars(example = 8)]
    A,
}
#[derive(JsonSchema)]
pub struct W32_576(
    #[garde(length(equal = 3))]
    pub Option<Refd>,
    #[schemars(extend("type" = "null"))]
    #[validate(length(max = 8))]
    pub Vec<String>,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(transform = tr1)]
#[schemars(transparent)]
pub struct W32_577(
    /// Doc r.
    #[schemars(schema_with = "sup::sw2")]
    pub C,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(title = "Rt")]
pub struct W32_578(
    #[schemars(length(min = 1))]
    pub u32,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum W31_1794 {
    /// # Rt
    ///
    /// body
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    A(
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        MultiT,
        #[schemars(extend("readOnly" = false))]
        #[garde(length(equal = 3))]
        Option<B>,
    ),
    #[serde(rename = "type2")]
    #[schemars(schema_with = "sw1")]
    #[schemars(example = 8)]
    Q {
        #[schemars(with = "Inner1")]
        #[schemars(skip_serializing)]
        w2: Box<A>,
        /// # Only
        #[serde(skip_serializing_if = "sif")]
        q: Inner1,
    },
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    URLPart(
        /// # Rt
        ///
        /// body
        #[schemars(schema_with = "sup::sw2")]
        Option<A>,
    ),
    #[serde(skip_deserializing)]
    #[serde(rename = "vn4")]
    Zz {

    },
    /// Doc r.
    #[schemars(rename = "type3")]
    #[schemars(schema_with = "sw1")]
    #[serde(untagged)]
    #[schemars(transform = tr1)]
    FooBar(
        #[schemars(range(min = 2))]
        Inner1,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
#[schemars(rename_all_fields = "camelCase")]
pub enum W31_1795 {
    #[deprecated]
    FooBar,
    /// # Only
    A {
        /// # Rt
        ///
        /// body
        #[schemars(rename = "R n1")]
        #[garde(inner(range(max = 5)))]
        trail_: TT,
    },
    #[schemars(transform = tr1)]
    Q(
        /// # Only
        D,
        Vec<A>,
    ),
    #[serde(skip_deserializing)]
    Zz(
        #[schemars(length(min = 1))]
        Option<B>,
    ),
    /// Doc r.
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Foo_Bar,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(title = "")]
pub enum W31_1796 {
    /// # Only
    #[schemars(example = 8)]
    W2,
    #[serde(skip)]
    #[schemars(!skip)]
    A,
    #[serde(untagged)]
    Foo_Bar {
        #[garde(ipv4)]
        #[serde(skip_serializing_if = "sif")]
        w2: Box<A>,
    },
    #[schemars(rename = "vn1")]
    #[serde(untagged)]
    FooBar,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_579 {
    #[schemars(rename_all(serialize = "kebab-case", deserialize = "lowercase"))]
    #[schemars(title = "")]
    A {
        /// # Rt
        ///
        /// body
        #[serde(default)]
        #[serde(rename = "zz91")]
        zz: Option<B>,
        #[serde(default)]
        #[schemars(skip_serializing_if = "sif")]
        #[serde(rename(serialize = "rs22"))]
        #[schemars(flatten)]
        q: Deny1,
        #[schemars(default)]
        #[schemars(regex(pattern = "^r"))]
        URL_part: Vec<String>,
    },
}
#[derive(JsonSchema)]
/// Doc r.
pub enum W31_1797 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[serde(rename = "vn1")]
    Q {
        a: String,
    },
    #[schemars(skip_serializing)]
    #[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
    Foo_Bar {
        /// # Only
        #[garde(length(equal = 3))]
        URL_part: MultiT,
        #[serde(skip_serializing_if = "sif")]
        #[serde(default)]
        a: bool,
    },
}
#[derive(JsonSchema)]
#[schemars(extend("title" = "Xt"))]
pub struct W31_1798 {
    #[serde(skip_serializing)]
    #[schemars(skip_serializing_if = "sif")]
    #[validate(range(min = 1, max = 9))]
    #[schemars(!skip_serializing)]
    pub q: u32,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(skip_serializing)]
    pub URL_part: u32,
}
#[derive(JsonSchema)]
pub struct W32_580(
    #[schemars(with = "Option<A>")]
    pub C,
);
#[derive(JsonSchema)]
#[schemars(extend("title" = "Xt"))]
pub struct W32_581 {
    /// # Rt
    ///
    /// body
    pub a: A,
}
#[derive(JsonSchema)]
pub struct W31_1799(
    #[deprecated]
    pub bool,
    /// # Rt
    ///
    /// body
    #[schemars(!skip)]
    #[serde(skip)]
    pub u32,
    pub B,
    /// # Only
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub Option<u32>,
);
#[derive(JsonSchema)]
/// Doc r.
#[serde(deny_unknown_fields)]
pub enum W32_582 {
    /// # Rt
    ///
    /// body
    FooBar(
        /// Doc r.
        #[schemars(inner(length(min = 1)))]
        Option<Refd>,
    ),
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[schemars(extend("title" = "Xt"))]
pub enum W32_583 {
    /// Doc r.
    #[schemars(title = "Rt")]
    FooBarBaz(
        /// # Rt
        ///
        /// body
        #[validate(length(max = 8))]
        #[schemars(email)]
        B,
    ),
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(transform = tr1)]
    W2(
        /// Doc r.
        #[schemars(schema_with = "sw1")]
        #[schemars(length(min = 1))]
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_584 {
    /// Doc r.
    #[serde(rename = "type1")]
    X1Y2 {
        #[schemars(extend("title" = "Xt"))]
        r#type: Vec<String>,
        #[schemars(with = "Inner1")]
        #[garde(inner(range(max = 5)))]
        #[serde(default)]
        a: InlineS,
        #[garde(ipv4)]
        foo_bar_baz: B,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(deny_unknown_fields)]
pub struct W31_1800 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    #[serde(default)]
    #[schemars(schema_with = "sw_obj")]
    pub zz: bool,
    /// # Only
    #[schemars(description = "Rd")]
    #[serde(skip)]
    #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
    pub r#type: Option<u32>,
    #[validate(url)]
    pub URL_part: A,
    #[deprecated]
    #[serde(skip_serializing_if = "sif")]
    pub foo_bar: String,
    #[serde(flatten)]
    #[schemars(skip)]
    #[serde(rename = "R n2")]
    pub w2: Inner1,
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(extend("x-r" = [1]))]
#[schemars(rename_all = "snake_case")]
pub struct W32_585 {
    #[serde(skip_serializing_if = "sif")]
    #[schemars(rename(serialize = "rs21"))]
    pub foo_bar_baz: Refd,
    #[deprecated]
    #[schemars(rename = "type2")]
    pub trail_: Option<u32>,
    #[serde(skip_serializing_if = "sif")]
    pub r#type: MultiT,
    #[schemars(default)]
    pub x1_y2: InlineS,
}
#[derive(JsonSchema)]
pub struct W32_586 {
    #[deprecated]
    #[schemars(extend("type" = "null"))]
    pub foo_bar: InlineS,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(flatten)]
    pub trail_: FF,
    #[serde(rename(serialize = "rs1", deserialize = "rd1"))]
    #[serde(flatten)]
    pub dbl__us: Enum2,
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(rename_all(serialize = "kebab-case"))]
#[schemars(rename_all_fields(serialize = "PascalCase"))]
pub enum W32_587 {
    /// # Rt
    ///
    /// body
    #[serde(rename = "vn2")]
    #[schemars(example = 8)]
    Ab {
        /// # Rt
        ///
        /// body
        #[schemars(rename = "R n1")]
        #[schemars(title = "Rt")]
        q: B,
        #[schemars(email)]
        trail_: C,
    },
    #[serde(rename = "type3")]
    #[serde(untagged)]
    Zz,
}
#[derive(JsonSchema)]
/// # Only
#[serde(rename_all_fields = "SCREAMING_SNAKE_CASE")]
#[serde(deny_unknown_fields)]
pub enum W32_588 {
    Foo_Bar(
        #[schemars(inner(length(min = 1)))]
        A,
    ),
    /// Doc r.
    #[serde(untagged)]
    URLPart(
        /// Doc r.
        Refd,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
    #[serde(untagged)]
    Q {
        /// # Only
        #[schemars(transform = tr1)]
        #[schemars(skip_serializing_if = "sif")]
        x1_y2: InlineS,
    },
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_589 {
    #[schemars(default)]
    pub q: Option<Refd>,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(extend("type" = "null"))]
    #[validate(range(min = 1, max = 9))]
    pub trail_: Option<Refd>,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(title = "")]
#[schemars(rename_all_fields = "snake_case")]
pub enum W31_1801 {
    /// # Only
    Ab(
        #[validate(length(max = 8))]
        TT,
        A,
    ),
    /// # Only
    FooBar {
        #[schemars(skip)]
        #[serde(skip_deserializing)]
        w2: Option<u32>,
    },
    /// Doc r.
    X1Y2,
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    URLPart {
        /// # Only
        #[serde(skip_serializing_if = "sif")]
        URL_part: TT,
    },
    /// # Rt
    ///
    /// body
    #[serde(skip)]
    #[serde(untagged)]
    #[schemars(title = "Rt")]
    W2(
        /// Doc r.
        #[schemars(skip_serializing)]
        #[schemars(range(min = 2))]
        #[validate(required)]
        Option<String>,
        #[schemars(!skip_serializing)]
        #[garde(length(equal = 3))]
        #[serde(skip_serializing)]
        InlineS,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W32_590 {
    pub a: Vec<String>,
    #[serde(default)]
    #[schemars(flatten)]
    pub zz: TT,
    pub r#type: Vec<A>,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(title = "")]
pub struct W31_1802(
    pub Vec<String>,
    #[schemars(range(min = 2))]
    #[serde(skip_deserializing)]
    pub u32,
    pub u32,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(deny_unknown_fields)]
pub enum W32_591 {
    /// Doc r.
    A,
}
#[derive(JsonSchema)]
pub struct W32_592 {
    #[schemars(skip_serializing_if = "sif")]
    pub w2: MultiT,
}
#[derive(JsonSchema)]
/// # Only
pub enum W31_1803 {
    /// # Rt
    ///
    /// body
    #[schemars(rename = "type1")]
    #[serde(rename_all(serialize = "camelCase"))]
    FooBar {

    },
    /// # Rt
    ///
    /// body
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    #[schemars(rename_all(serialize = "PascalCase", deserialize = "camelCase"))]
    #[schemars(title = "")]
    Q {

    },
    #[serde(rename = "vn2")]
    #[schemars(title = "Rt")]
    FooBarBaz,
    /// # Rt
    ///
    /// body
    #[schemars(description = "Rd")]
    Ab {
        #[serde(flatten)]
        a: NoMix,
    },
    /// Doc r.
    #[deprecated]
    #[serde(untagged)]
    Zz(
        Option<B>,
        Refd,
        #[schemars(with = "Inner1")]
        #[garde(length(equal = 3))]
        Option<A>,
    ),
}
#[derive(JsonSchema)]
/// # Only
#[schemars(extend("x-r" = [1]))]
#[serde(rename_all_fields(serialize = "SCREAMING_SNAKE_CASE", deserialize = "SCREAMING_SNAKE_CASE"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1804 {
    #[schemars(rename_all = "snake_case")]
    #[schemars(extend("x-r" = [1]))]
    X1Y2 {
        q: Option<u32>,
        #[serde(flatten)]
        ab: Option<Inner1>,
        #[serde(skip)]
        #[serde(flatten)]
        #[serde(rename = "rn1")]
        #[schemars(!skip)]
        #[schemars(skip_serializing_if = "sif")]
        URL_part: Option<Inner1>,
    },
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W31_1805 {
    #[schemars(flatten)]
    #[schemars(skip_serializing_if = "sif")]
    #[serde(default)]
    pub foo_bar_baz: Option<Enum1>,
    /// Doc r.
    #[schemars(title = "Rt")]
    pub foo_bar: TT,
    pub ab: A,
    #[deprecated]
    #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
    #[schemars(skip)]
    #[schemars(skip_serializing_if = "sif")]
    pub a: u32,
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(!skip_serializing)]
    #[serde(skip_serializing)]
    pub r#type: Option<A>,
}
#[derive(JsonSchema)]
#[schemars(untagged)]
#[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(rename_all_fields = "snake_case")]
pub enum W31_1806 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Ab(
        #[schemars(extend("title" = "Xt"))]
        Option<Refd>,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "kebab-case")]
#[serde(deny_unknown_fields)]
pub struct W32_593 {
    /// Doc r.
    pub q: MultiT,
    #[serde(rename = "$x1")]
    pub a: InlineS,
    pub URL_part: Vec<A>,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W31_1807(
    #[serde(skip_serializing)]
    #[schemars(extend("title" = "Xt"))]
    pub InlineS,
    /// # Rt
    ///
    /// body
    pub bool,
    /// Doc r.
    #[validate(range(min = 1, max = 9))]
    #[schemars(with = "Refd")]
    #[garde(inner(range(max = 5)))]
    pub Box<A>,
);
#[derive(JsonSchema)]
pub enum W32_594 {
    /// # Rt
    ///
    /// body
    Ab(
        /// Doc r.
        #[schemars(length(min = 1))]
        bool,
        #[validate(range(min = 1, max = 9))]
        u32,
        #[schemars(with = "Refd")]
        Option<B>,
    ),
    /// Doc r.
    FooBar {
        #[serde(rename = "$x1")]
        #[schemars(email)]
        a: Vec<A>,
    },
    /// # Only
    Zz(
        #[schemars(transform = tr1)]
        bool,
        MultiT,
        #[schemars(inner(length(min = 1)))]
        bool,
    ),
    Q {
        #[schemars(email)]
        #[schemars(rename(serialize = "rs22"))]
        #[schemars(schema_with = "sw1")]
        foo_bar: Option<A>,
        w2: Refd,
    },
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[schemars(extend("x-r" = [1]))]
pub enum W31_1808 {
    Q {
        #[deprecated]
        #[schemars(inner(length(min = 1)))]
        #[schemars(default)]
        ab: A,
        #[serde(flatten)]
        #[schemars(rename = "R n1")]
        trail_: TagEnum,
        #[schemars(extend("type" = "null"))]
        #[serde(skip_deserializing)]
        _lead: String,
    },
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[schemars(transform = tr1)]
    A(
        #[garde(ipv4)]
        A,
        /// # Only
        #[validate(range(min = 1, max = 9))]
        #[schemars(description = "Rd")]
        u32,
        #[schemars(skip_serializing)]
        Vec<String>,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(untagged)]
#[serde(rename_all = "camelCase")]
pub enum W31_1809 {
    #[schemars(example = 8)]
    W2 {
        #[schemars(with = "Option<A>")]
        _lead: Option<B>,
        #[serde(skip_serializing)]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(!skip_serializing)]
        trail_: MultiT,
    },
    #[schemars(example = 8)]
    FooBarBaz,
    /// # Rt
    ///
    /// body
    #[serde(skip_deserializing)]
    Q {
        /// Doc r.
        #[schemars(default)]
        dbl__us: B,
        #[schemars(flatten)]
        r#type: NoUnit,
    },
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(transform = tr1)]
    A(
        #[validate(url)]
        Option<A>,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(extend("title" = "Xt"))]
pub struct W32_595(
    #[schemars(transform = tr1)]
    pub Box<Option<B>>,
);
#[derive(JsonSchema)]
#[schemars(extend("title" = "Xt"))]
#[schemars(transparent)]
pub struct W32_596(
    /// Doc r.
    pub Option<String>,
);
#[derive(JsonSchema)]
/// Doc r.
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(rename_all_fields(serialize = "snake_case"))]
pub enum W31_1810 {
    /// # Only
    #[schemars(example = 8)]
    URLPart,
    /// Doc r.
    FooBarBaz {
        #[serde(skip_serializing)]
        #[serde(skip_serializing_if = "sif")]
        dbl__us: Option<A>,
        /// # Only
        #[schemars(contains("c.c"))]
        #[serde(rename(serialize = "rs1", deserialize = "rd1"))]
        a: A,
        #[serde(rename(serialize = "rs2", deserialize = "rd2"))]
        #[garde(length(equal = 3))]
        #[serde(skip_deserializing)]
        #[serde(default)]
        URL_part: bool,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(extend("x-r" = [1]))]
pub struct W32_597(
    /// Doc r.
    #[schemars(contains("c.c"))]
    pub B,
    #[garde(inner(range(max = 5)))]
    pub Refd,
    #[schemars(schema_with = "sw1")]
    #[schemars(description = "Rd")]
    pub C,
);
#[derive(JsonSchema)]
/// # Only
pub struct W31_1811(
    #[schemars(contains("c.c"))]
    pub bool,
    /// Doc r.
    pub Box<A>,
    /// # Rt
    ///
    /// body
    #[schemars(transform = tr1)]
    pub MultiT,
    #[schemars(inner(length(min = 1)))]
    #[serde(skip_serializing)]
    #[validate(length(max = 8))]
    #[schemars(skip_deserializing)]
    pub Refd,
);
#[derive(JsonSchema)]
#[schemars(title = "Rt")]
pub struct W32_598(
    #[schemars(with = "String")]
    #[schemars(description = "Rd")]
    pub Inner1,
    /// # Rt
    ///
    /// body
    #[garde(inner(range(max = 5)))]
    pub B,
    #[schemars(extend("readOnly" = false))]
    #[schemars(inner(length(min = 1)))]
    pub Option<B>,
    /// # Only
    pub String,
);
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W31_1812 {
    #[schemars(regex(pattern = "^r"))]
    #[schemars(!skip_deserializing)]
    #[serde(skip_deserializing)]
    pub _lead: TT,
    pub ab: TT,
    pub dbl__us: TT,
    #[schemars(title = "")]
    #[schemars(length(min = 1))]
    #[schemars(with = "B")]
    #[schemars(rename = "R n1")]
    pub URL_part: Refd,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(extend("x-r" = [1]))]
pub struct W31_1813(
    #[serde(skip)]
    pub Vec<String>,
    pub Option<Refd>,
    pub B,
    /// # Rt
    ///
    /// body
    #[schemars(description = "Rd")]
    pub Option<B>,
);
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(title = "")]
#[serde(rename_all_fields = "SCREAMING_SNAKE_CASE")]
pub enum W31_1814 {
    URLPart(
        /// Doc r.
        #[schemars(title = "Rt")]
        #[serde(skip_serializing)]
        String,
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        #[schemars(description = "Rd")]
        InlineS,
        /// # Rt
        ///
        /// body
        #[schemars(with = "Option<A>")]
        #[validate(url)]
        #[schemars(extend("type" = "null"))]
        Vec<String>,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "camelCase")]
#[serde(rename_all_fields = "kebab-case")]
pub enum W32_599 {
    X1Y2(
        #[schemars(with = "Option<A>")]
        #[schemars(transform = tr1)]
        B,
        #[schemars(length(min = 1))]
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1815 {
    /// # Rt
    ///
    /// body
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    X1Y2(
        #[schemars(extend("type" = "null"))]
        Refd,
    ),
    #[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
    FooBar {

    },
    #[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
    W2 {

    },
}
#[derive(JsonSchema)]
/// # Only
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct W32_600 {
    #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
    pub ab: String,
    #[deprecated]
    #[validate(url)]
    pub foo_bar_baz: Vec<String>,
    #[serde(rename = "type2")]
    #[schemars(contains("c.c"))]
    pub a: Box<Option<B>>,
}
#[derive(JsonSchema)]
pub enum W31_1816 {
    #[schemars(rename = "vn2")]
    A {
        #[serde(skip_deserializing)]
        #[schemars(rename = "type1")]
        #[serde(flatten)]
        #[schemars(skip)]
        trail_: UnitEnum,
        /// # Rt
        ///
        /// body
        #[serde(skip)]
        #[schemars(description = "Rd")]
        #[schemars(contains("c.c"))]
        zz: Option<Refd>,
    },
    URLPart(
        #[validate(url)]
        u32,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(example = 8)]
    Q,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(transform = tr1)]
pub struct W31_1817(
    #[serde(skip_serializing)]
    pub Option<String>,
    #[validate(url)]
    pub bool,
);
#[derive(JsonSchema)]
/// Doc r.
#[schemars(deny_unknown_fields)]
pub struct W31_1818 {
    #[schemars(skip)]
    #[schemars(rename = "type1")]
    pub w2: Inner1,
    pub foo_bar: Option<String>,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(extend("x-r" = [1]))]
pub struct W32_601(
    #[schemars(description = "Rd")]
    pub Option<A>,
    #[schemars(description = "Rd")]
    pub InlineS,
    #[schemars(length(min = 1))]
    #[schemars(range(min = 2))]
    pub Vec<A>,
    /// Doc r.
    #[schemars(with = "Inner1")]
    pub C,
);
#[derive(JsonSchema)]
pub struct W31_1819 {
    #[serde(flatten)]
    #[serde(default)]
    pub URL_part: Inner2,
    #[serde(flatten)]
    #[serde(skip_serializing)]
    #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
    pub trail_: MapS,
    /// # Rt
    ///
    /// body
    #[schemars(with = "String")]
    #[schemars(default)]
    pub foo_bar_baz: A,
    /// # Only
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub r#type: Option<u32>,
    #[schemars(contains("c.c"))]
    #[serde(default)]
    #[schemars(range(min = 2))]
    pub zz: MultiT,
}
#[derive(JsonSchema, Default)]
#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "kebab-case"))]
#[serde(default)]
pub struct W32_602 {
    /// # Only
    #[schemars(inner(length(min = 1)))]
    pub zz: InlineS,
    #[schemars(default)]
    pub r#type: u32,
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(flatten)]
    #[schemars(default)]
    pub _lead: NoMix,
    #[serde(default)]
    pub w2: Box<Option<B>>,
}
#[derive(JsonSchema)]
/// # Only
#[serde(untagged)]
#[schemars(title = "Rt")]
pub enum W31_1820 {
    FooBar(
        String,
    ),
    #[schemars(transform = tr1)]
    Zz {
        #[serde(skip_serializing)]
        #[schemars(flatten)]
        foo_bar: UnEnum,
        #[schemars(example = 8)]
        zz: Box<Option<B>>,
    },
    /// # Only
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    A(
        /// # Only
        Box<Option<B>>,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(deny_unknown_fields)]
pub struct W32_603 {
    #[schemars(example = 8)]
    pub URL_part: Vec<String>,
    #[schemars(range(min = 2))]
    pub foo_bar: Option<B>,
    /// # Rt
    ///
    /// body
    #[schemars(schema_with = "sw1")]
    #[serde(rename = "type1")]
    pub a: Option<u32>,
}
#[derive(JsonSchema)]
/// # Only
pub struct W31_1821 {
    #[schemars(extend("readOnly" = false))]
    #[serde(skip_deserializing)]
    pub r#type: Option<B>,
    #[schemars(flatten)]
    #[serde(rename = "type1")]
    pub a: UnitEnum,
}
#[derive(JsonSchema)]
/// # Only
pub struct W31_1822(
    #[schemars(title = "")]
    #[schemars(regex(pattern = "^r"))]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub u32,
    #[schemars(schema_with = "sup::sw2")]
    #[schemars(range(min = 2))]
    #[schemars(title = "")]
    pub Box<Option<B>>,
    /// Doc r.
    pub TT,
);
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(rename_all = "PascalCase")]
#[schemars(rename_all_fields = "UPPERCASE")]
#[schemars(deny_unknown_fields)]
pub enum W32_604 {
    /// # Only
    #[serde(rename_all = "kebab-case")]
    FooBar {
        #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
        #[schemars(extend("readOnly" = false))]
        a: MultiT,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(extend("x-r" = [1]))]
        #[garde(length(equal = 3))]
        q: bool,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1823 {
    Foo_Bar,
    /// # Only
    #[schemars(description = "Rd")]
    Q {
        #[schemars(schema_with = "sw_obj")]
        #[serde(default)]
        trail_: u32,
        /// # Only
        #[validate(length(max = 8))]
        foo_bar: Option<u32>,
        /// # Only
        #[schemars(rename = "rn1")]
        #[schemars(with = "B")]
        #[schemars(length(min = 1))]
        #[serde(default)]
        ab: Option<B>,
    },
    #[schemars(rename_all = "snake_case")]
    #[schemars(example = 8)]
    FooBar {
        #[serde(flatten)]
        x1_y2: InnerO,
        #[validate(range(min = 1, max = 9))]
        #[schemars(extend("type" = "null"))]
        foo_bar_baz: A,
        #[serde(skip_deserializing)]
        #[serde(skip_serializing)]
        #[schemars(title = "")]
        trail_: bool,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(rename_all(serialize = "SCREAMING-KEBAB-CASE"))]
pub enum W32_605 {
    /// # Rt
    ///
    /// body
    #[serde(rename = "type1")]
    FooBarBaz(
        #[deprecated]
        #[schemars(extend("title" = "Xt"))]
        Option<Refd>,
    ),
    /// Doc r.
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    URLPart(
        #[schemars(with = "Option<A>")]
        #[schemars(transform = tr1)]
        #[schemars(email)]
        A,
    ),
    /// # Only
    #[serde(untagged)]
    #[schemars(transform = tr1)]
    Q(
        /// Doc r.
        #[schemars(schema_with = "sw_obj")]
        Option<u32>,
    ),
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
pub enum W31_1824 {
    /// # Rt
    ///
    /// body
    #[schemars(rename_all(serialize = "lowercase"))]
    X1Y2 {
        #[garde(length(equal = 3))]
        zz: Box<Option<B>>,
    },
    Q(
        #[schemars(email)]
        #[schemars(required)]
        Option<B>,
    ),
    #[schemars(description = "Rd")]
    FooBarBaz,
    /// # Only
    #[deprecated]
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    #[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "kebab-case"))]
    Zz {
        #[schemars(length(min = 1))]
        foo_bar: Refd,
        #[serde(skip_serializing_if = "sif")]
        #[validate(length(max = 8))]
        URL_part: B,
        #[validate(length(max = 8))]
        x1_y2: Refd,
    },
    /// # Only
    #[deprecated]
    #[serde(skip_serializing)]
    URLPart(
        #[schemars(with = "String")]
        D,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(extend("title" = "Xt"))]
#[schemars(rename_all_fields = "camelCase")]
#[schemars(deny_unknown_fields)]
pub enum W32_606 {
    X1Y2 {

    },
}
#[derive(JsonSchema)]
/// # Only
pub struct W32_607(
    pub Option<u32>,
    #[schemars(email)]
    pub Option<String>,
    #[schemars(inner(length(min = 1)))]
    pub String,
);
#[derive(JsonSchema)]
#[schemars(example = 8)]
#[serde(transparent)]
pub struct W32_608(
    pub bool,
);
#[derive(JsonSchema)]
pub struct W32_609 {
    /// # Rt
    ///
    /// body
    #[schemars(skip_serializing_if = "sif")]
    pub r#type: Box<A>,
    #[validate(url)]
    #[schemars(contains("c.c"))]
    pub x1_y2: bool,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(extend("title" = "Xt"))]
#[schemars(rename_all(serialize = "camelCase", deserialize = "PascalCase"))]
pub struct W31_1825 {
    #[schemars(with = "B")]
    #[schemars(flatten)]
    #[serde(rename = "type1")]
    pub trail_: NestedDeep,
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(flatten)]
    #[serde(skip_deserializing)]
    pub zz: Option<Enum1>,
    #[serde(skip_deserializing)]
    #[serde(skip_serializing_if = "sif")]
    #[serde(flatten)]
    #[schemars(skip)]
    pub _lead: Inner1,
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum W31_1826 {
    /// Doc r.
    FooBar,
    #[serde(rename_all = "PascalCase")]
    FooBarBaz {
        #[garde(length(equal = 3))]
        #[schemars(title = "")]
        trail_: Refd,
        #[schemars(with = "B")]
        #[serde(flatten)]
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        q: UnitEnum,
        #[schemars(extend("type" = "null"))]
        x1_y2: Refd,
    },
}
#[derive(JsonSchema)]
#[schemars(example = 8)]
#[schemars(deny_unknown_fields)]
pub struct W31_1827 {
    #[schemars(skip_deserializing)]
    #[schemars(example = 8)]
    #[serde(skip_serializing)]
    #[serde(rename = "type1")]
    pub a: A,
}
#[derive(JsonSchema)]
pub struct W31_1828(
    /// # Only
    #[validate(url)]
    #[schemars(inner(length(min = 1)))]
    pub Option<Refd>,
    #[schemars(skip_deserializing)]
    pub Refd,
);
#[derive(JsonSchema, Default)]
/// # Only
#[schemars(example = 8)]
#[serde(rename_all(serialize = "PascalCase"))]
#[serde(default)]
pub struct W32_610 {
    #[schemars(title = "")]
    #[schemars(rename = "rn1")]
    #[schemars(with = "Refd")]
    pub x1_y2: Option<Refd>,
    #[serde(flatten)]
    #[serde(rename = "zz92")]
    pub zz: Uneval1,
    /// Doc r.
    #[schemars(default)]
    #[validate(range(min = 1, max = 9))]
    pub foo_bar: C,
}
#[derive(JsonSchema)]
pub struct W32_611(
    pub Refd,
    /// # Rt
    ///
    /// body
    pub MultiT,
    #[schemars(extend("readOnly" = false))]
    pub bool,
);
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(deny_unknown_fields)]
pub enum W31_1829 {
    /// # Only
    #[serde(skip_serializing)]
    Foo_Bar {
        #[schemars(rename = "rn1")]
        #[serde(skip)]
        #[schemars(!skip)]
        trail_: u32,
        #[garde(ipv4)]
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        #[serde(rename = "type2")]
        a: Option<A>,
        /// # Rt
        ///
        /// body
        #[schemars(rename(serialize = "rs3", deserialize = "rd3"))]
        URL_part: TT,
    },
    /// # Rt
    ///
    /// body
    #[serde(rename = "vn4")]
    FooBarBaz(
        #[schemars(with = "Refd")]
        Refd,
        #[schemars(extend("x-r" = [1]))]
        InlineS,
        /// # Rt
        ///
        /// body
        #[schemars(skip_deserializing)]
        Refd,
    ),
    Q {

    },
    /// Doc r.
    #[schemars(rename(serialize = "vs5", deserialize = "vd5"))]
    #[schemars(with = "B")]
    Ab(
        Box<Option<B>>,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[schemars(deny_unknown_fields)]
pub enum W31_1830 {
    /// # Only
    W2 {

    },
    A(
        /// # Only
        #[validate(length(max = 8))]
        Refd,
    ),
    #[schemars(skip_deserializing)]
    #[schemars(transform = tr1)]
    Foo_Bar(
        #[deprecated]
        Refd,
    ),
    /// # Only
    #[serde(rename = "vn1")]
    #[schemars(with = "B")]
    Ab(
        Option<u32>,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(extend("x-r" = [1]))]
#[serde(rename_all = "snake_case")]
pub struct W31_1831 {
    pub x1_y2: Option<B>,
    #[garde(required)]
    #[schemars(skip_serializing)]
    #[schemars(range(min = 2))]
    #[schemars(extend("title" = "Xt"))]
    pub dbl__us: Option<Refd>,
    #[deprecated]
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    #[serde(skip_serializing_if = "sif")]
    pub foo_bar_baz: u32,
    #[deprecated]
    #[schemars(extend("x-r" = [1]))]
    #[validate(range(min = 1, max = 9))]
    #[schemars(required)]
    pub foo_bar: Option<u32>,
    /// Doc r.
    #[deprecated]
    #[validate(required)]
    #[serde(skip_serializing_if = "sif")]
    pub w2: Option<String>,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[schemars(rename_all_fields = "UPPERCASE")]
pub enum W32_612 {
    Foo_Bar,
    /// # Only
    Q(
        /// # Only
        #[schemars(range(min = 2))]
        Refd,
    ),
    #[serde(rename = "vn1")]
    #[serde(rename_all(serialize = "kebab-case"))]
    Ab {

    },
    #[serde(untagged)]
    FooBarBaz(
        #[deprecated]
        #[schemars(transform = tr1)]
        C,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[schemars(rename_all = "UPPERCASE")]
pub enum W32_613 {
    /// # Only
    #[schemars(title = "")]
    FooBarBaz,
    /// # Only
    FooBar,
    #[serde(untagged)]
    Q {

    },
    /// Doc r.
    #[schemars(rename = "vn2")]
    #[serde(untagged)]
    A {
        #[schemars(rename = "rn1")]
        #[schemars(title = "Rt")]
        #[serde(default)]
        foo_bar: D,
        zz: C,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(example = 8)]
#[schemars(deny_unknown_fields)]
pub struct W32_614 {
    /// # Only
    #[schemars(schema_with = "sw_obj")]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(extend("x-r" = [1]))]
    pub ab: InlineS,
}
#[derive(JsonSchema)]
#[schemars(description = "Rd")]
#[serde(rename_all(serialize = "camelCase"))]
pub struct W31_1832 {
    #[serde(skip_serializing)]
    #[schemars(regex(pattern = "^r"))]
    #[serde(default)]
    #[validate(range(min = 1, max = 9))]
    pub x1_y2: D,
}
#[derive(JsonSchema)]
pub struct W31_1833 {
    #[serde(flatten)]
    pub trail_: Inner2,
    #[schemars(default)]
    #[validate(url)]
    #[serde(skip_serializing_if = "sif")]
    pub w2: Vec<A>,
    #[schemars(!skip_serializing)]
    #[schemars(flatten)]
    #[serde(skip_serializing)]
    pub r#type: InnerO,
    #[schemars(flatten)]
    pub q: MixEnum,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(rename_all(serialize = "kebab-case"))]
pub enum W32_615 {
    /// Doc r.
    #[serde(rename = "vn1")]
    A {

    },
    #[deprecated]
    W2,
    #[serde(rename_all = "kebab-case")]
    Zz {
        #[schemars(skip_serializing_if = "sif")]
        #[serde(default)]
        w2: C,
        #[schemars(regex(pattern = "^r"))]
        foo_bar_baz: Refd,
    },
}
#[derive(JsonSchema, Default)]
/// # Rt
///
/// body
#[schemars(deny_unknown_fields)]
#[serde(default)]
pub struct W31_1834 {
    #[schemars(skip_serializing)]
    #[schemars(title = "")]
    pub URL_part: u32,
}
#[derive(JsonSchema)]
#[schemars(extend("title" = "Xt"))]
pub struct W32_616(
    pub Inner1,
);
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(rename_all(serialize = "camelCase"))]
pub enum W32_617 {
    /// Doc r.
    Ab {
        #[schemars(flatten)]
        a: Inner1,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(title = "Rt")]
#[serde(deny_unknown_fields)]
pub enum W31_1835 {
    /// # Only
    #[schemars(title = "Rt")]
    W2(
        #[schemars(with = "Option<A>")]
        #[garde(length(equal = 3))]
        #[schemars(extend("type" = "null"))]
        Vec<A>,
        #[serde(skip_deserializing)]
        #[schemars(transform = tr1)]
        Option<B>,
        /// # Only
        #[serde(skip)]
        #[schemars(email)]
        Box<Option<B>>,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(schema_with = "sw_obj")]
    Q(
        #[schemars(inner(length(min = 1)))]
        #[garde(length(equal = 3))]
        D,
        Vec<String>,
    ),
    /// Doc r.
    #[schemars(transform = tr1)]
    Foo_Bar(
        #[schemars(schema_with = "sw1")]
        #[garde(ipv4)]
        u32,
        /// # Rt
        ///
        /// body
        #[serde(skip_serializing)]
        Vec<String>,
    ),
    X1Y2,
    /// Doc r.
    #[serde(rename_all(serialize = "lowercase"))]
    URLPart {
        #[schemars(!skip)]
        #[serde(skip)]
        #[schemars(title = "")]
        #[schemars(inner(length(min = 1)))]
        a: MultiT,
        #[serde(skip_serializing)]
        #[schemars(extend("x-r" = [1]))]
        #[serde(rename = "rn1")]
        #[schemars(!skip_serializing)]
        r#type: D,
    },
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub enum W31_1836 {
    #[schemars(skip_serializing)]
    #[schemars(extend("x-r" = [1]))]
    Ab {
        #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
        foo_bar: Option<A>,
    },
    Foo_Bar {
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(flatten)]
        trail_: Option<UnEnum>,
    },
    /// # Only
    #[schemars(with = "Inner1")]
    #[serde(untagged)]
    A(
        #[schemars(length(min = 1))]
        A,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W32_618 {
    #[serde(rename = "vn1")]
    #[schemars(rename_all(serialize = "snake_case"))]
    #[schemars(with = "B")]
    Zz {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(rename_all_fields = "kebab-case")]
pub enum W31_1837 {
    Ab {
        zz: Vec<String>,
        #[schemars(with = "Refd")]
        #[schemars(rename(serialize = "rs21"))]
        _lead: D,
        #[serde(skip_serializing_if = "sif")]
        q: Vec<String>,
    },
    /// # Only
    #[schemars(rename = "type2")]
    Foo_Bar(
        /// # Only
        #[garde(length(equal = 3))]
        A,
    ),
    /// # Only
    #[schemars(rename = "type3")]
    #[serde(rename_all(serialize = "kebab-case", deserialize = "snake_case"))]
    #[schemars(extend("x-r" = [1]))]
    X1Y2 {
        #[deprecated]
        #[schemars(range(min = 2))]
        #[schemars(with = "Refd")]
        foo_bar_baz: Box<A>,
        #[schemars(flatten)]
        #[schemars(skip)]
        a: Enum1,
    },
}
#[derive(JsonSchema)]
#[schemars(untagged)]
#[schemars(extend("x-r" = [1]))]
#[serde(rename_all_fields(serialize = "camelCase"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1838 {
    /// # Rt
    ///
    /// body
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Foo_Bar {
        #[schemars(flatten)]
        #[schemars(rename = "$x1")]
        trail_: MixEnum,
        /// # Only
        #[schemars(skip_serializing_if = "sif")]
        foo_bar_baz: Option<String>,
    },
}
#[derive(JsonSchema)]
/// # Only
#[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "snake_case"))]
#[serde(rename_all_fields(serialize = "snake_case"))]
#[serde(deny_unknown_fields)]
pub enum W31_1839 {
    #[schemars(rename = "vn1")]
    #[serde(untagged)]
    FooBarBaz(
        Option<B>,
        #[serde(skip)]
        #[validate(length(max = 8))]
        #[schemars(!skip)]
        Option<u32>,
        #[validate(url)]
        Inner1,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
pub enum W32_619 {
    /// # Only
    #[deprecated]
    #[serde(rename = "type2")]
    #[schemars(schema_with = "sw_obj")]
    A {
        #[serde(rename = "$x1")]
        #[serde(default)]
        #[validate(range(min = 1, max = 9))]
        foo_bar: C,
    },
    #[serde(rename_all(serialize = "lowercase", deserialize = "PascalCase"))]
    X1Y2 {
        #[serde(flatten)]
        #[serde(default)]
        foo_bar: UnitEnum,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W32_620 {
    FooBarBaz,
    URLPart,
    X1Y2(
        #[schemars(length(min = 1))]
        Box<A>,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(tag = "tg")]
pub enum W32_621 {
    #[schemars(rename_all(serialize = "UPPERCASE"))]
    #[schemars(with = "Inner1")]
    #[schemars(extend("x-r" = [1]))]
    Foo_Bar {
        foo_bar_baz: Box<Option<B>>,
        URL_part: Option<String>,
        #[schemars(rename = "type1")]
        #[serde(skip_serializing_if = "sif")]
        trail_: TT,
    },
}
#[derive(JsonSchema)]
#[schemars(title = "")]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
pub enum W31_1840 {
    /// # Rt
    ///
    /// body
    #[schemars(rename = "vn1")]
    W2(
        /// # Only
        #[schemars(contains("c.c"))]
        MultiT,
        /// Doc r.
        #[schemars(schema_with = "sw_obj")]
        bool,
        #[schemars(range(min = 2))]
        #[schemars(title = "Rt")]
        #[schemars(with = "Refd")]
        Box<A>,
    ),
    #[deprecated]
    #[schemars(skip_serializing)]
    #[serde(rename = "vn2")]
    FooBar(
        #[schemars(regex(pattern = "^r"))]
        #[schemars(skip)]
        TT,
        #[schemars(inner(length(min = 1)))]
        Box<Option<B>>,
    ),
    /// # Only
    #[serde(rename(serialize = "vs4", deserialize = "vd4"))]
    #[serde(rename_all(serialize = "PascalCase", deserialize = "SCREAMING-KEBAB-CASE"))]
    #[serde(untagged)]
    URLPart {
        #[serde(skip_serializing)]
        #[garde(inner(range(max = 5)))]
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(!skip_serializing)]
        foo_bar: String,
        /// Doc r.
        #[schemars(skip_serializing_if = "sif")]
        #[serde(rename(serialize = "rs23"))]
        #[schemars(extend("x-r" = [1]))]
        dbl__us: Box<Option<B>>,
    },
    /// Doc r.
    #[serde(untagged)]
    #[schemars(transform = tr1)]
    X1Y2,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(title = "Rt")]
#[schemars(rename_all_fields = "lowercase")]
#[schemars(deny_unknown_fields)]
pub enum W31_1841 {
    /// # Rt
    ///
    /// body
    FooBarBaz(
        Refd,
        #[garde(inner(range(max = 5)))]
        #[schemars(with = "Inner1")]
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        String,
        #[schemars(title = "Rt")]
        bool,
    ),
    #[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
    Q {

    },
}
#[derive(JsonSchema)]
#[schemars(title = "Rt")]
pub enum W32_622 {
    Zz(
        #[schemars(inner(length(min = 1)))]
        #[schemars(title = "")]
        Option<A>,
        #[deprecated]
        A,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(extend("x-r" = [1]))]
    W2,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W32_623 {
    /// Doc r.
    #[serde(rename = "type1")]
    FooBar(
        #[schemars(extend("x-r" = [1]))]
        Refd,
        #[schemars(contains("c.c"))]
        #[schemars(transform = tr1)]
        Vec<String>,
    ),
    /// Doc r.
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    #[schemars(title = "")]
    Ab {

    },
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    #[schemars(description = "Rd")]
    X1Y2,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_624(
    #[validate(length(max = 8))]
    pub Refd,
);
#[derive(JsonSchema)]
pub struct W31_1842 {
    #[serde(skip_serializing_if = "sif")]
    #[schemars(skip)]
    #[schemars(regex(pattern = "^r"))]
    pub URL_part: String,
    #[serde(default)]
    pub zz: Vec<String>,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(title = "")]
pub struct W31_1843 {
    #[schemars(title = "Rt")]
    #[schemars(skip_serializing)]
    #[serde(rename = "rn1")]
    #[schemars(regex(pattern = "^r"))]
    pub r#type: B,
    pub dbl__us: bool,
    #[schemars(email)]
    pub zz: Box<Option<B>>,
    #[schemars(skip_serializing_if = "sif")]
    pub a: A,
    #[schemars(email)]
    #[schemars(contains("c.c"))]
    pub foo_bar_baz: Vec<A>,
}
#[derive(JsonSchema)]
/// Doc r.
pub enum W31_1844 {
    #[serde(untagged)]
    FooBar(
        #[schemars(with = "B")]
        #[schemars(regex(pattern = "^r"))]
        MultiT,
        #[schemars(skip_serializing)]
        #[schemars(title = "")]
        Refd,
    ),
}
#[derive(JsonSchema)]
/// # Only
pub struct W31_1845 {
    #[garde(length(equal = 3))]
    #[serde(skip)]
    pub dbl__us: C,
    #[schemars(length(min = 1))]
    #[schemars(rename = "R n1")]
    pub foo_bar: Box<Option<B>>,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(untagged)]
pub enum W32_625 {
    #[schemars(rename_all(serialize = "kebab-case"))]
    W2 {

    },
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
pub enum W31_1846 {
    /// # Rt
    ///
    /// body
    FooBarBaz(
        #[schemars(regex(pattern = "^r"))]
        Option<B>,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(schema_with = "sw_obj")]
    FooBar {
        #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        a: Refd,
        #[deprecated]
        #[schemars(with = "Option<A>")]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(email)]
        #[schemars(transform = tr1)]
        #[schemars(rename = "R n2")]
        w2: u32,
    },
    /// Doc r.
    #[serde(untagged)]
    W2 {

    },
}
#[derive(JsonSchema)]
pub struct W32_626 {
    #[serde(rename = "R n1")]
    #[serde(default)]
    pub URL_part: Vec<A>,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(rename = "rn2")]
    pub w2: MultiT,
    #[deprecated]
    #[schemars(rename = "rn3")]
    pub q: bool,
    pub _lead: Vec<A>,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(untagged)]
pub enum W31_1847 {
    #[serde(skip)]
    #[serde(rename = "type1")]
    #[schemars(rename_all = "UPPERCASE")]
    X1Y2 {

    },
}
#[derive(JsonSchema)]
#[schemars(example = 8)]
pub struct W31_1848(
    pub B,
    #[schemars(email)]
    #[schemars(length(min = 1))]
    pub String,
    #[serde(skip_deserializing)]
    #[validate(range(min = 1, max = 9))]
    pub InlineS,
);
#[derive(JsonSchema)]
/// # Only
#[serde(untagged)]
pub enum W31_1849 {
    #[deprecated]
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    FooBar(
        #[schemars(schema_with = "sw_obj")]
        Option<B>,
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        #[schemars(transform = tr1)]
        Option<u32>,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W31_1850 {
    /// # Rt
    ///
    /// body
    #[schemars(title = "")]
    URLPart,
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    FooBarBaz {
        /// Doc r.
        #[serde(skip_serializing_if = "sif")]
        trail_: Option<u32>,
        #[schemars(!skip_deserializing)]
        #[validate(url)]
        #[serde(skip_deserializing)]
        #[schemars(skip_serializing_if = "sif")]
        q: TT,
        #[serde(skip_serializing)]
        #[serde(flatten)]
        foo_bar: Inner1,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(deny_unknown_fields)]
pub enum W31_1851 {
    Ab(
        /// # Only
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        Option<String>,
        /// # Rt
        ///
        /// body
        #[validate(range(min = 1, max = 9))]
        Option<u32>,
    ),
    /// # Only
    #[schemars(extend("title" = "Xt"))]
    Zz {
        #[serde(skip_serializing_if = "sif")]
        #[validate(range(min = 1, max = 9))]
        #[schemars(skip_deserializing)]
        #[schemars(extend("readOnly" = false))]
        trail_: InlineS,
    },
    /// Doc r.
    Q {
        w2: Inner1,
    },
    #[schemars(rename_all = "kebab-case")]
    X1Y2 {
        #[schemars(contains("c.c"))]
        #[garde(length(equal = 3))]
        #[serde(default)]
        dbl__us: Option<Refd>,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(serialize = "lowercase", deserialize = "UPPERCASE"))]
pub enum W31_1852 {
    /// # Rt
    ///
    /// body
    URLPart {
        #[serde(skip_deserializing)]
        #[serde(flatten)]
        #[schemars(skip)]
        ab: TagEnum,
        #[garde(inner(range(max = 5)))]
        #[schemars(extend("x-r" = [1]))]
        #[schemars(with = "B")]
        q: D,
        /// # Only
        #[garde(ipv4)]
        #[serde(default)]
        w2: InlineS,
    },
    #[schemars(title = "")]
    FooBar {
        #[schemars(!skip_serializing)]
        #[schemars(contains("c.c"))]
        #[serde(skip_serializing)]
        #[schemars(rename(serialize = "rs21"))]
        #[schemars(inner(length(min = 1)))]
        r#type: u32,
        #[schemars(contains("c.c"))]
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        #[schemars(rename(serialize = "rs2", deserialize = "rd2"))]
        trail_: Vec<String>,
        #[schemars(title = "")]
        foo_bar_baz: InlineS,
    },
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Zz(
        #[schemars(with = "Inner1")]
        Inner1,
        #[serde(skip_serializing)]
        #[schemars(schema_with = "sw_obj")]
        Option<Refd>,
        #[schemars(regex(pattern = "^r"))]
        #[schemars(extend("title" = "Xt"))]
        Box<Option<B>>,
    ),
    #[schemars(with = "Inner1")]
    A(
        #[schemars(contains("c.c"))]
        Option<u32>,
    ),
}
#[derive(JsonSchema, Default)]
#[schemars(description = "Rd")]
#[schemars(deny_unknown_fields)]
#[serde(default)]
pub struct W32_627 {
    #[schemars(flatten)]
    pub w2: Enum1,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "PascalCase")]
pub struct W31_1853 {
    #[deprecated]
    #[schemars(contains("c.c"))]
    #[schemars(skip_serializing_if = "sif")]
    pub a: A,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(skip)]
    #[serde(default)]
    #[serde(skip_deserializing)]
    pub r#type: Inner1,
    #[schemars(description = "Rd")]
    #[schemars(with = "String")]
    pub URL_part: Option<String>,
    #[schemars(schema_with = "sup::sw2")]
    pub dbl__us: Inner1,
}
#[derive(JsonSchema)]
#[schemars(extend("x-r" = [1]))]
#[serde(rename_all = "kebab-case")]
pub struct W32_628 {
    pub foo_bar_baz: Option<Refd>,
    #[schemars(schema_with = "sw_obj")]
    #[garde(length(equal = 3))]
    pub _lead: Box<A>,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W31_1854 {
    /// # Only
    #[garde(ipv4)]
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    pub dbl__us: Option<String>,
    #[schemars(extend("title" = "Xt"))]
    #[schemars(skip_serializing_if = "sif")]
    pub ab: bool,
    #[schemars(rename(serialize = "rs21"))]
    #[schemars(extend("title" = "Xt"))]
    pub x1_y2: Option<u32>,
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields(serialize = "SCREAMING_SNAKE_CASE"))]
pub enum W31_1855 {
    /// Doc r.
    FooBar {
        #[schemars(range(min = 2))]
        foo_bar_baz: D,
        /// # Rt
        ///
        /// body
        #[garde(length(equal = 3))]
        x1_y2: B,
        #[schemars(skip_serializing_if = "sif")]
        foo_bar: C,
    },
    #[serde(skip)]
    #[schemars(!skip)]
    #[serde(rename = "vn1")]
    #[schemars(extend("title" = "Xt"))]
    Q {
        #[schemars(skip_serializing_if = "sif")]
        #[serde(default)]
        #[schemars(extend("x-r" = [1]))]
        q: MultiT,
        /// # Only
        #[schemars(with = "B")]
        x1_y2: D,
        #[serde(default)]
        #[serde(flatten)]
        r#type: SomeMix,
    },
}
#[derive(JsonSchema)]
/// # Only
#[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE"))]
pub enum W31_1856 {
    #[schemars(extend("x-r" = [1]))]
    URLPart(
        Box<Option<B>>,
        #[schemars(inner(length(min = 1)))]
        #[serde(skip_serializing)]
        D,
    ),
    /// # Rt
    ///
    /// body
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    Q(
        #[schemars(skip)]
        A,
        #[deprecated]
        #[schemars(skip_deserializing)]
        #[serde(skip_serializing)]
        Option<B>,
    ),
    Foo_Bar(
        #[schemars(contains("c.c"))]
        #[garde(inner(range(max = 5)))]
        #[schemars(extend("readOnly" = false))]
        Option<A>,
        /// Doc r.
        u32,
        /// Doc r.
        #[schemars(with = "Option<A>")]
        Option<Refd>,
    ),
    Ab(
        #[schemars(schema_with = "sw1")]
        #[validate(length(max = 8))]
        Vec<A>,
    ),
    #[schemars(skip_serializing)]
    W2(
        /// # Only
        TT,
        /// # Only
        #[deprecated]
        #[serde(skip_serializing)]
        Option<u32>,
        #[validate(url)]
        #[schemars(schema_with = "sw_obj")]
        #[schemars(extend("x-r" = [1]))]
        A,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W32_629(
    #[schemars(with = "String")]
    pub C,
);
#[derive(JsonSchema)]
/// # Only
pub struct W32_630(
    #[schemars(schema_with = "sup::sw2")]
    #[validate(length(max = 8))]
    pub A,
);
#[derive(JsonSchema)]
/// # Only
#[serde(rename_all = "kebab-case")]
#[serde(deny_unknown_fields)]
pub struct W32_631 {
    pub _lead: B,
    #[schemars(skip_serializing_if = "sif")]
    pub w2: A,
    pub trail_: Vec<String>,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
pub enum W31_1857 {
    /// # Rt
    ///
    /// body
    #[schemars(rename = "type1")]
    X1Y2(
        #[schemars(regex(pattern = "^r"))]
        Option<String>,
    ),
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    #[serde(rename_all(serialize = "camelCase"))]
    #[schemars(schema_with = "sw1")]
    Foo_Bar {
        /// # Only
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(schema_with = "sup::sw2")]
        #[serde(rename(serialize = "rs5", deserialize = "rd5"))]
        #[serde(skip)]
        #[schemars(!skip)]
        a: Option<Refd>,
    },
    #[schemars(rename_all(serialize = "PascalCase"))]
    #[schemars(extend("title" = "Xt"))]
    Q {
        foo_bar_baz: Option<B>,
    },
    /// # Only
    #[serde(untagged)]
    URLPart {
        #[garde(ipv4)]
        #[schemars(extend("x-r" = [1]))]
        #[schemars(length(min = 1))]
        #[serde(rename(serialize = "rs22"))]
        _lead: Option<B>,
        /// # Rt
        ///
        /// body
        #[schemars(title = "")]
        #[schemars(with = "B")]
        #[serde(rename = "$x3")]
        x1_y2: Box<A>,
        #[schemars(rename = "$x4")]
        #[schemars(contains("c.c"))]
        #[schemars(with = "Refd")]
        URL_part: Option<String>,
    },
    #[serde(untagged)]
    W2 {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_632 {
    /// Doc r.
    W2,
    /// # Rt
    ///
    /// body
    Foo_Bar {

    },
    Ab,
    #[deprecated]
    Q {

    },
    X1Y2(
        #[garde(inner(range(max = 5)))]
        Option<u32>,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(rename_all(serialize = "SCREAMING-KEBAB-CASE"))]
#[serde(rename_all_fields(serialize = "UPPERCASE", deserialize = "snake_case"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1858 {
    /// Doc r.
    #[schemars(rename = "vn1")]
    W2(
        #[schemars(with = "String")]
        #[validate(url)]
        #[schemars(contains("c.c"))]
        Box<A>,
        /// Doc r.
        #[schemars(!skip)]
        #[garde(ipv4)]
        #[serde(skip)]
        bool,
    ),
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    FooBar {
        #[serde(default)]
        w2: bool,
        #[schemars(rename = "R n2")]
        x1_y2: Option<Refd>,
    },
    /// Doc r.
    #[serde(rename = "type3")]
    Q(
        /// # Only
        #[schemars(title = "")]
        Inner1,
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        Box<A>,
    ),
    /// # Only
    #[schemars(with = "Inner1")]
    #[schemars(description = "Rd")]
    Foo_Bar(
        TT,
        #[validate(url)]
        #[schemars(skip)]
        Vec<A>,
    ),
    /// # Rt
    ///
    /// body
    X1Y2,
}
#[derive(JsonSchema)]
pub struct W32_633(
    /// # Rt
    ///
    /// body
    pub A,
);
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(extend("x-r" = [1]))]
pub enum W32_634 {
    /// # Only
    #[serde(rename_all = "snake_case")]
    #[schemars(title = "Rt")]
    A {
        /// # Rt
        ///
        /// body
        #[schemars(extend("title" = "Xt"))]
        #[schemars(with = "Option<A>")]
        q: InlineS,
        /// # Only
        #[validate(required)]
        #[schemars(extend("x-r" = [1]))]
        x1_y2: Option<String>,
        #[schemars(default)]
        #[serde(flatten)]
        zz: Deny1,
    },
    /// Doc r.
    #[schemars(rename = "type1")]
    #[schemars(example = 8)]
    Ab,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(example = 8)]
pub struct W31_1859(
    #[schemars(!skip)]
    #[serde(skip)]
    pub bool,
    pub B,
    #[schemars(with = "String")]
    pub u32,
    pub Vec<A>,
);
#[derive(JsonSchema)]
pub enum W31_1860 {
    /// # Only
    FooBar {
        #[serde(default)]
        foo_bar_baz: bool,
        /// Doc r.
        #[validate(length(max = 8))]
        _lead: Option<String>,
        #[serde(skip_serializing_if = "sif")]
        URL_part: MultiT,
    },
    /// # Only
    #[schemars(rename = "type2")]
    W2 {
        #[serde(rename(serialize = "rs1", deserialize = "rd1"))]
        #[schemars(inner(length(min = 1)))]
        _lead: Box<Option<B>>,
        #[serde(flatten)]
        foo_bar_baz: Inner1,
        /// # Only
        #[deprecated]
        #[serde(skip_deserializing)]
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(extend("type" = "null"))]
        w2: B,
    },
}
#[derive(JsonSchema)]
pub struct W32_635 {
    #[schemars(title = "")]
    pub x1_y2: bool,
    #[schemars(flatten)]
    pub zz: Inner2,
    #[deprecated]
    #[schemars(range(min = 2))]
    pub ab: Option<Refd>,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1861 {
    /// # Rt
    ///
    /// body
    FooBar {
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(skip_deserializing)]
        #[serde(skip_serializing)]
        #[schemars(rename = "rn1")]
        a: Box<Option<B>>,
    },
    /// Doc r.
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    Q,
    /// Doc r.
    #[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
    #[schemars(transform = tr1)]
    W2 {
        #[schemars(required)]
        #[serde(rename = "type3")]
        #[schemars(regex(pattern = "^r"))]
        #[schemars(inner(length(min = 1)))]
        foo_bar_baz: Option<Refd>,
    },
    /// # Rt
    ///
    /// body
    Foo_Bar {

    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W31_1862 {
    #[serde(flatten)]
    pub ab: Option<Enum1>,
    pub r#type: C,
    /// # Only
    #[serde(skip_deserializing)]
    pub foo_bar: Option<A>,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W31_1863 {
    /// # Only
    #[schemars(schema_with = "sw_obj")]
    X1Y2 {
        /// # Rt
        ///
        /// body
        #[serde(default)]
        URL_part: Refd,
    },
    #[serde(skip)]
    #[schemars(!skip)]
    FooBar,
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "PascalCase", deserialize = "lowercase"))]
pub struct W32_636 {
    #[serde(default)]
    pub dbl__us: Option<B>,
    #[deprecated]
    pub ab: Option<String>,
}
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(extend("x-r" = [1]))]
pub enum W32_637 {
    /// # Rt
    ///
    /// body
    #[schemars(extend("x-r" = [1]))]
    Ab {

    },
}
#[derive(JsonSchema)]
/// # Only
#[serde(transparent)]
pub struct W32_638(
    #[schemars(contains("c.c"))]
    pub Option<Refd>,
);
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(rename_all(serialize = "camelCase"))]
#[schemars(rename_all_fields(serialize = "SCREAMING_SNAKE_CASE", deserialize = "PascalCase"))]
#[schemars(deny_unknown_fields)]
pub enum W32_639 {
    /// Doc r.
    #[serde(rename = "type1")]
    #[schemars(title = "Rt")]
    W2(
        Option<String>,
    ),
    /// Doc r.
    #[schemars(schema_with = "sw_obj")]
    #[schemars(transform = tr1)]
    Q(
        #[garde(ipv4)]
        #[schemars(extend("type" = "null"))]
        Option<String>,
    ),
    /// # Rt
    ///
    /// body
    #[deprecated]
    URLPart,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(untagged)]
#[serde(rename_all_fields = "UPPERCASE")]
pub enum W31_1864 {
    #[schemars(title = "")]
    URLPart,
    /// # Rt
    ///
    /// body
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    #[schemars(with = "Inner1")]
    Foo_Bar(
        Refd,
        C,
        /// # Only
        Box<Option<B>>,
    ),
    /// # Only
    Zz(
        #[serde(skip)]
        #[schemars(!skip)]
        TT,
        #[schemars(example = 8)]
        Option<String>,
    ),
    /// # Rt
    ///
    /// body
    X1Y2(
        Option<Refd>,
    ),
    #[serde(rename = "vn1")]
    W2(
        Option<String>,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W31_1865 {
    #[serde(default)]
    pub q: InlineS,
    pub x1_y2: bool,
    /// Doc r.
    #[schemars(extend("x-r" = [1]))]
    #[serde(skip_serializing)]
    #[garde(inner(range(max = 5)))]
    #[serde(skip_deserializing)]
    pub trail_: Box<Option<B>>,
    #[schemars(example = 8)]
    pub dbl__us: C,
    #[serde(flatten)]
    pub r#type: Inner1,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_1866 {
    /// Doc r.
    Ab {
        /// Doc r.
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(inner(length(min = 1)))]
        #[schemars(with = "B")]
        w2: String,
        #[serde(skip_serializing)]
        #[schemars(contains("c.c"))]
        #[schemars(rename = "type1")]
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        URL_part: A,
        foo_bar: InlineS,
    },
    A {
        /// # Only
        #[schemars(with = "Refd")]
        x1_y2: Option<A>,
    },
}
#[derive(JsonSchema)]
/// # Only
#[serde(rename_all(serialize = "PascalCase"))]
pub struct W32_640 {
    /// Doc r.
    #[schemars(title = "")]
    #[serde(rename(serialize = "rs21"))]
    pub _lead: u32,
    #[schemars(rename = "type2")]
    #[schemars(extend("readOnly" = false))]
    pub ab: Vec<A>,
    pub r#type: Option<A>,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W31_1867(
    /// Doc r.
    #[schemars(with = "Inner1")]
    #[schemars(inner(length(min = 1)))]
    pub D,
    #[schemars(title = "Rt")]
    #[schemars(!skip)]
    #[schemars(schema_with = "sw1")]
    #[serde(skip)]
    pub bool,
);
#[derive(JsonSchema)]
#[schemars(description = "Rd")]
pub struct W32_641(
    #[schemars(transform = tr1)]
    pub bool,
);
#[derive(JsonSchema)]
#[schemars(title = "Rt")]
#[serde(rename_all(serialize = "camelCase"))]
#[schemars(deny_unknown_fields)]
pub struct W31_1868 {
    #[serde(flatten)]
    #[serde(default)]
    pub foo_bar_baz: TagEnum,
    #[serde(skip_serializing)]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(skip_deserializing)]
    #[schemars(email)]
    pub w2: u32,
    /// # Only
    #[schemars(extend("type" = "null"))]
    pub a: InlineS,
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields = "PascalCase")]
#[serde(deny_unknown_fields)]
pub enum W31_1869 {
    #[schemars(rename = "vn1")]
    A(
        /// Doc r.
        bool,
        #[validate(url)]
        #[serde(skip)]
        Box<A>,
    ),
    #[schemars(rename = "type3")]
    #[schemars(description = "Rd")]
    W2 {
        #[schemars(inner(length(min = 1)))]
        #[schemars(rename = "$x2")]
        x1_y2: u32,
    },
    /// # Only
    #[schemars(rename(serialize = "vs4", deserialize = "vd4"))]
    Q,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1870 {
    #[schemars(rename_all(serialize = "lowercase", deserialize = "camelCase"))]
    #[schemars(schema_with = "sw_obj")]
    #[serde(untagged)]
    FooBarBaz {
        #[schemars(title = "")]
        #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
        w2: Refd,
        #[schemars(rename = "rn2")]
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        #[schemars(schema_with = "sw_obj")]
        #[schemars(email)]
        _lead: TT,
        /// # Rt
        ///
        /// body
        #[garde(ipv4)]
        zz: Option<u32>,
    },
}
#[derive(JsonSchema)]
/// # Only
#[schemars(untagged)]
#[schemars(rename_all_fields(serialize = "lowercase", deserialize = "camelCase"))]
pub enum W31_1871 {
    /// # Only
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    FooBar,
    /// # Only
    #[schemars(title = "Rt")]
    Foo_Bar(
        #[deprecated]
        #[schemars(transform = tr1)]
        TT,
        #[garde(ipv4)]
        #[schemars(length(min = 1))]
        #[schemars(skip_deserializing)]
        #[serde(skip_serializing)]
        #[schemars(schema_with = "sup::sw2")]
        Option<A>,
        #[schemars(!skip_deserializing)]
        #[serde(skip_deserializing)]
        Refd,
    ),
    #[serde(rename = "type2")]
    URLPart {

    },
    /// # Rt
    ///
    /// body
    #[schemars(rename = "vn4")]
    #[schemars(description = "Rd")]
    A {
        #[schemars(rename = "$x3")]
        #[serde(flatten)]
        trail_: Deny1,
        /// # Rt
        ///
        /// body
        #[serde(skip_serializing)]
        #[schemars(with = "Inner1")]
        #[schemars(!skip_serializing)]
        foo_bar_baz: TT,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields = "PascalCase")]
pub enum W31_1872 {
    /// Doc r.
    Foo_Bar {
        /// # Only
        #[schemars(extend("type" = "null"))]
        #[schemars(skip)]
        #[garde(length(equal = 3))]
        #[schemars(with = "Refd")]
        URL_part: bool,
    },
    /// # Only
    #[schemars(title = "Rt")]
    W2,
    /// # Rt
    ///
    /// body
    #[schemars(rename_all = "camelCase")]
    X1Y2 {
        /// # Only
        #[schemars(title = "Rt")]
        foo_bar: bool,
        #[serde(skip_serializing_if = "sif")]
        #[serde(skip)]
        #[serde(flatten)]
        URL_part: UnitEnum,
    },
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W31_1873 {
    /// # Only
    #[schemars(example = 8)]
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    pub dbl__us: String,
    /// # Only
    #[schemars(extend("title" = "Xt"))]
    #[serde(skip_deserializing)]
    #[serde(rename = "R n1")]
    #[serde(default)]
    #[schemars(schema_with = "sw1")]
    pub w2: Box<A>,
    /// # Only
    #[schemars(extend("title" = "Xt"))]
    #[serde(default)]
    #[schemars(schema_with = "sup::sw2")]
    #[schemars(skip_serializing_if = "sif")]
    pub ab: Option<A>,
    #[deprecated]
    #[schemars(example = 8)]
    #[schemars(range(min = 2))]
    pub a: C,
}
#[derive(JsonSchema, Default)]
/// # Only
#[schemars(rename_all = "PascalCase")]
#[serde(default)]
pub struct W32_642 {
    #[serde(flatten)]
    #[serde(skip_serializing_if = "sif")]
    pub dbl__us: Nested1,
}
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1874 {
    /// # Only
    FooBar,
    #[serde(skip_deserializing)]
    Q,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(rename_all_fields(serialize = "SCREAMING_SNAKE_CASE"))]
pub enum W31_1875 {
    /// # Rt
    ///
    /// body
    #[schemars(rename_all = "PascalCase")]
    Zz {

    },
    #[schemars(skip_serializing)]
    FooBar {
        #[deprecated]
        #[schemars(range(min = 2))]
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        #[serde(default)]
        ab: InlineS,
    },
    #[schemars(schema_with = "sw_obj")]
    #[schemars(title = "")]
    Ab(
        MultiT,
        Option<B>,
    ),
    /// Doc r.
    #[serde(untagged)]
    URLPart {
        #[serde(flatten)]
        #[schemars(skip_serializing_if = "sif")]
        #[serde(rename = "type1")]
        ab: Nested1,
    },
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[serde(untagged)]
    A(
        #[schemars(extend("type" = "null"))]
        InlineS,
        /// # Rt
        ///
        /// body
        #[garde(required)]
        Option<B>,
        #[schemars(transform = tr1)]
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        A,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_643 {
    /// # Rt
    ///
    /// body
    pub x1_y2: D,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(rename_all_fields = "SCREAMING-KEBAB-CASE")]
pub enum W32_644 {
    /// # Rt
    ///
    /// body
    #[serde(untagged)]
    Q {
        /// # Rt
        ///
        /// body
        #[garde(length(equal = 3))]
        r#type: B,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(untagged)]
#[schemars(description = "Rd")]
#[schemars(deny_unknown_fields)]
pub enum W31_1876 {
    #[deprecated]
    #[serde(skip)]
    Zz(
        Vec<A>,
        /// # Rt
        ///
        /// body
        #[schemars(inner(length(min = 1)))]
        #[schemars(extend("title" = "Xt"))]
        Vec<String>,
    ),
    /// Doc r.
    URLPart,
    #[schemars(example = 8)]
    A {
        #[schemars(title = "Rt")]
        #[schemars(rename = "type1")]
        q: B,
        #[garde(ipv4)]
        foo_bar_baz: D,
        #[garde(length(equal = 3))]
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        w2: Box<A>,
    },
    /// Doc r.
    W2(
        #[schemars(with = "Refd")]
        Option<Refd>,
        /// Doc r.
        #[schemars(schema_with = "sup::sw2")]
        #[schemars(title = "")]
        C,
        bool,
    ),
    #[schemars(rename = "vn2")]
    Q(
        String,
    ),
}
#[derive(JsonSchema)]
/// # Only
#[serde(untagged)]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
#[schemars(deny_unknown_fields)]
pub enum W31_1877 {
    X1Y2,
    Zz(
        #[serde(skip_deserializing)]
        Box<A>,
        #[schemars(example = 8)]
        Box<A>,
        #[schemars(extend("readOnly" = false))]
        #[schemars(schema_with = "sw_obj")]
        u32,
    ),
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    #[schemars(title = "")]
    W2 {
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(extend("readOnly" = false))]
        a: C,
        #[schemars(skip)]
        #[schemars(length(min = 1))]
        #[serde(rename = "zz91")]
        zz: MultiT,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(rename_all = "camelCase")]
#[serde(deny_unknown_fields)]
pub enum W31_1878 {
    /// Doc r.
    Ab(
        #[validate(url)]
        bool,
    ),
    /// # Rt
    ///
    /// body
    #[serde(skip)]
    #[serde(rename = "type1")]
    Zz(
        #[schemars(length(min = 1))]
        B,
    ),
    #[schemars(rename(serialize = "vs2", deserialize = "vd2"))]
    #[schemars(description = "Rd")]
    FooBar(
        /// # Only
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        InlineS,
        #[deprecated]
        #[schemars(schema_with = "sw_obj")]
        Vec<String>,
        #[schemars(example = 8)]
        Option<Refd>,
    ),
    /// Doc r.
    W2,
    #[schemars(with = "Inner1")]
    #[schemars(example = 8)]
    URLPart(
        #[schemars(!skip_serializing)]
        #[garde(ipv4)]
        #[serde(skip_serializing)]
        C,
        u32,
        #[schemars(example = 8)]
        Option<A>,
    ),
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[serde(rename_all(serialize = "PascalCase"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1879 {
    FooBarBaz {
        #[schemars(default)]
        dbl__us: B,
    },
    /// # Rt
    ///
    /// body
    #[serde(skip_deserializing)]
    #[serde(rename = "vn1")]
    FooBar {

    },
    /// Doc r.
    #[deprecated]
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    #[schemars(transform = tr1)]
    Foo_Bar {

    },
    /// # Only
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    #[schemars(title = "Rt")]
    A,
    /// # Only
    #[serde(untagged)]
    Q {
        #[schemars(flatten)]
        a: FF,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(skip_deserializing)]
        #[serde(default)]
        #[serde(skip_serializing)]
        foo_bar_baz: InlineS,
    },
}
#[derive(JsonSchema)]
#[schemars(title = "")]
#[serde(deny_unknown_fields)]
pub enum W32_645 {
    Zz,
    /// # Rt
    ///
    /// body
    Q(
        /// # Only
        #[deprecated]
        #[schemars(regex(pattern = "^r"))]
        TT,
    ),
    /// # Only
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    FooBar,
    /// Doc r.
    Ab,
    #[schemars(schema_with = "sw_obj")]
    A(
        Option<B>,
        #[deprecated]
        String,
    ),
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W32_646(
    pub Option<String>,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(untagged)]
#[serde(rename_all_fields = "UPPERCASE")]
pub enum W31_1880 {
    Q(
        #[schemars(email)]
        #[schemars(title = "Rt")]
        Box<Option<B>>,
        /// # Only
        #[schemars(inner(length(min = 1)))]
        InlineS,
    ),
    /// # Rt
    ///
    /// body
    #[serde(skip_serializing)]
    X1Y2(
        #[serde(skip_deserializing)]
        Option<u32>,
        /// # Rt
        ///
        /// body
        Option<u32>,
    ),
    /// # Only
    Zz(
        #[schemars(inner(length(min = 1)))]
        bool,
        #[deprecated]
        #[schemars(extend("type" = "null"))]
        #[schemars(required)]
        Option<A>,
        #[schemars(contains("c.c"))]
        C,
    ),
    #[schemars(schema_with = "sw_obj")]
    FooBarBaz(
        Inner1,
        #[deprecated]
        #[schemars(skip_deserializing)]
        #[validate(length(max = 8))]
        A,
    ),
    URLPart(
        /// # Rt
        ///
        /// body
        #[deprecated]
        #[schemars(with = "Inner1")]
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[schemars(untagged)]
pub enum W31_1881 {
    /// # Rt
    ///
    /// body
    Zz,
    /// # Only
    #[schemars(rename = "vn1")]
    FooBarBaz {

    },
    /// # Only
    Q(
        #[validate(range(min = 1, max = 9))]
        #[validate(length(max = 8))]
        #[schemars(description = "Rd")]
        MultiT,
        /// Doc r.
        #[schemars(with = "Inner1")]
        TT,
    ),
    /// # Only
    #[deprecated]
    #[schemars(title = "Rt")]
    FooBar,
    /// Doc r.
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[schemars(transform = tr1)]
    Foo_Bar {
        #[serde(default)]
        #[schemars(rename = "R n2")]
        #[schemars(skip_serializing_if = "sif")]
        #[validate(length(max = 8))]
        dbl__us: Box<Option<B>>,
        /// Doc r.
        #[serde(default)]
        URL_part: TT,
        #[serde(rename(serialize = "rs3", deserialize = "rd3"))]
        a: D,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(deny_unknown_fields)]
pub enum W31_1882 {
    /// # Rt
    ///
    /// body
    #[schemars(transform = tr1)]
    Q,
    URLPart {

    },
    /// Doc r.
    #[deprecated]
    X1Y2(
        InlineS,
    ),
    /// # Rt
    ///
    /// body
    #[deprecated]
    #[serde(skip_serializing)]
    #[serde(rename_all(serialize = "camelCase", deserialize = "camelCase"))]
    #[schemars(title = "Rt")]
    FooBarBaz {
        /// # Rt
        ///
        /// body
        #[schemars(schema_with = "sup::sw2")]
        a: C,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_647 {
    /// # Only
    #[serde(rename = "vn1")]
    #[schemars(example = 8)]
    URLPart,
    /// # Rt
    ///
    /// body
    FooBar(
        #[garde(inner(range(max = 5)))]
        String,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all = "camelCase")]
pub enum W32_648 {
    /// # Rt
    ///
    /// body
    #[deprecated]
    FooBarBaz,
    #[schemars(extend("title" = "Xt"))]
    URLPart(
        #[schemars(with = "Inner1")]
        #[garde(length(equal = 3))]
        InlineS,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(example = 8)]
    A,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(deny_unknown_fields)]
pub struct W32_649 {
    #[deprecated]
    #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
    pub foo_bar: Refd,
    /// # Rt
    ///
    /// body
    pub ab: Box<A>,
    #[schemars(schema_with = "sw_obj")]
    #[serde(default)]
    pub w2: String,
    #[schemars(range(min = 2))]
    pub q: D,
}
#[derive(JsonSchema)]
#[schemars(transform = tr1)]
#[schemars(rename_all(serialize = "PascalCase"))]
#[serde(deny_unknown_fields)]
pub struct W32_650 {
    /// # Only
    #[serde(default)]
    #[serde(rename = "R n1")]
    pub q: Box<A>,
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[schemars(rename_all = "snake_case")]
#[serde(deny_unknown_fields)]
pub enum W31_1883 {
    #[schemars(extend("x-r" = [1]))]
    X1Y2(
        #[schemars(contains("c.c"))]
        InlineS,
        #[serde(skip)]
        #[schemars(schema_with = "sup::sw2")]
        #[schemars(!skip)]
        D,
    ),
}
#[derive(JsonSchema)]
/// # Only
#[schemars(untagged)]
#[schemars(rename_all = "UPPERCASE")]
pub enum W31_1884 {
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[serde(rename = "vn1")]
    Zz,
    URLPart {
        #[serde(skip_serializing)]
        #[serde(default)]
        #[schemars(!skip_serializing)]
        #[validate(length(max = 8))]
        zz: B,
    },
    /// Doc r.
    #[schemars(rename_all = "UPPERCASE")]
    #[schemars(transform = tr1)]
    FooBarBaz {
        #[schemars(flatten)]
        #[serde(rename = "rn2")]
        #[schemars(skip_deserializing)]
        #[serde(skip_serializing)]
        q: MixEnum,
    },
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W31_1885 {
    #[schemars(rename(serialize = "rs21"))]
    #[validate(length(max = 8))]
    #[schemars(skip_serializing)]
    pub URL_part: Option<A>,
    #[schemars(extend("readOnly" = false))]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(length(min = 1))]
    pub x1_y2: A,
    #[schemars(default)]
    #[schemars(required)]
    pub a: Option<Refd>,
    /// Doc r.
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub foo_bar_baz: Option<B>,
    #[schemars(example = 8)]
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    pub zz: Box<Option<B>>,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(example = 8)]
#[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1886 {
    /// Doc r.
    #[serde(rename = "type3")]
    #[serde(rename_all = "UPPERCASE")]
    URLPart {
        #[schemars(flatten)]
        ab: NoMix,
        #[serde(skip_serializing_if = "sif")]
        #[schemars(schema_with = "sw1")]
        #[serde(rename = "zz91")]
        #[serde(flatten)]
        zz: UnitEnum,
        #[schemars(rename = "R n2")]
        a: A,
    },
    #[schemars(extend("title" = "Xt"))]
    FooBarBaz,
    /// Doc r.
    #[deprecated]
    #[serde(skip)]
    #[schemars(!skip)]
    A {
        #[schemars(skip_serializing_if = "sif")]
        r#type: Option<u32>,
    },
}
#[derive(JsonSchema)]
#[schemars(description = "Rd")]
pub enum W31_1887 {
    /// # Only
    #[schemars(description = "Rd")]
    Zz(
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        bool,
        #[schemars(description = "Rd")]
        Refd,
    ),
    #[serde(skip_deserializing)]
    X1Y2 {
        #[schemars(default)]
        #[serde(rename = "R n1")]
        r#type: String,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W31_1888 {
    pub zz: Vec<A>,
    #[schemars(example = 8)]
    #[garde(inner(range(max = 5)))]
    #[serde(skip_serializing_if = "sif")]
    pub _lead: Option<Refd>,
    #[schemars(skip)]
    #[schemars(default)]
    #[serde(skip_deserializing)]
    pub q: Option<Refd>,
    /// Doc r.
    #[schemars(schema_with = "sw_obj")]
    pub dbl__us: Box<Option<B>>,
    #[schemars(flatten)]
    #[schemars(default)]
    pub foo_bar_baz: Option<UnEnum>,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(untagged)]
#[schemars(rename_all = "snake_case")]
#[schemars(rename_all_fields(serialize = "PascalCase"))]
pub enum W32_651 {
    /// # Only
    A(
        #[schemars(title = "Rt")]
        #[schemars(range(min = 2))]
        Option<B>,
    ),
    FooBar(
        #[garde(ipv4)]
        #[validate(required)]
        Option<String>,
    ),
    /// Doc r.
    #[schemars(with = "B")]
    #[schemars(extend("title" = "Xt"))]
    X1Y2(
        /// Doc r.
        #[schemars(extend("type" = "null"))]
        Option<Refd>,
    ),
    Ab(
        /// # Only
        #[schemars(description = "Rd")]
        Option<Refd>,
        /// Doc r.
        Box<Option<B>>,
        Option<String>,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[serde(deny_unknown_fields)]
pub enum W32_652 {
    #[deprecated]
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    Foo_Bar {
        /// # Rt
        ///
        /// body
        #[schemars(extend("readOnly" = false))]
        foo_bar: Option<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(default)]
        ab: Refd,
    },
    /// Doc r.
    FooBarBaz,
    /// Doc r.
    #[schemars(rename(serialize = "vs2", deserialize = "vd2"))]
    #[serde(untagged)]
    Zz(
        #[schemars(example = 8)]
        MultiT,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE"))]
pub enum W31_1889 {
    /// Doc r.
    URLPart,
    #[schemars(skip)]
    Ab(
        Refd,
    ),
    /// Doc r.
    #[serde(skip)]
    #[schemars(!skip)]
    #[schemars(rename_all(serialize = "kebab-case"))]
    #[schemars(extend("title" = "Xt"))]
    Zz {
        #[serde(flatten)]
        a: Enum1,
        #[serde(skip)]
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(schema_with = "sw1")]
        #[serde(flatten)]
        x1_y2: Opt2,
    },
}
#[derive(JsonSchema)]
#[schemars(extend("title" = "Xt"))]
#[serde(transparent)]
pub struct W32_653(
    #[schemars(inner(length(min = 1)))]
    pub InlineS,
);
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[serde(rename_all_fields(serialize = "PascalCase", deserialize = "lowercase"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1890 {
    /// # Rt
    ///
    /// body
    URLPart(
        /// # Rt
        ///
        /// body
        MultiT,
    ),
    /// Doc r.
    X1Y2 {
        /// # Rt
        ///
        /// body
        #[schemars(rename(serialize = "rs21"))]
        #[schemars(schema_with = "sw_obj")]
        #[garde(ipv4)]
        URL_part: Option<String>,
        #[serde(skip)]
        #[schemars(!skip)]
        x1_y2: Option<A>,
        #[schemars(description = "Rd")]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(skip)]
        #[serde(rename = "zz92")]
        zz: C,
    },
    /// # Rt
    ///
    /// body
    W2(
        /// # Rt
        ///
        /// body
        #[schemars(inner(length(min = 1)))]
        Vec<String>,
    ),
    /// # Only
    #[serde(untagged)]
    A,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(untagged)]
#[serde(deny_unknown_fields)]
pub enum W31_1891 {
    /// Doc r.
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(transform = tr1)]
    Ab(
        /// # Rt
        ///
        /// body
        #[serde(skip)]
        A,
        /// # Rt
        ///
        /// body
        #[schemars(length(min = 1))]
        u32,
    ),
    FooBarBaz(
        /// # Only
        #[schemars(title = "Rt")]
        #[schemars(with = "Refd")]
        MultiT,
    ),
    /// # Rt
    ///
    /// body
    X1Y2,
    Foo_Bar(
        #[deprecated]
        #[schemars(extend("title" = "Xt"))]
        Option<B>,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(example = 8)]
    Zz(
        /// # Only
        D,
    ),
}
#[derive(JsonSchema)]
/// # Only
#[serde(untagged)]
pub enum W32_654 {
    /// # Only
    #[schemars(title = "")]
    Q(
        #[deprecated]
        #[garde(length(equal = 3))]
        Refd,
    ),
    #[schemars(schema_with = "sw_obj")]
    FooBar(
        /// # Rt
        ///
        /// body
        #[schemars(extend("title" = "Xt"))]
        Option<B>,
        #[schemars(length(min = 1))]
        C,
    ),
    #[schemars(rename = "vn1")]
    Ab {
        #[serde(flatten)]
        #[schemars(default)]
        q: UnitEnum,
    },
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    Foo_Bar(
        #[schemars(with = "B")]
        Inner1,
        #[schemars(schema_with = "sw1")]
        #[schemars(contains("c.c"))]
        Vec<A>,
    ),
    /// Doc r.
    URLPart,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "kebab-case"))]
#[schemars(rename_all_fields(serialize = "PascalCase"))]
pub enum W32_655 {
    Foo_Bar {
        /// # Rt
        ///
        /// body
        #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
        trail_: B,
        #[deprecated]
        URL_part: Box<A>,
    },
}
#[derive(JsonSchema, Default)]
#[schemars(deny_unknown_fields)]
#[serde(default)]
pub struct W32_656 {
    #[schemars(with = "B")]
    pub w2: A,
}
#[derive(JsonSchema)]
pub struct W31_1892 {
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[schemars(extend("title" = "Xt"))]
    #[serde(default)]
    pub URL_part: Option<Refd>,
    pub a: u32,
    /// # Only
    #[schemars(schema_with = "sw_obj")]
    #[garde(ipv4)]
    #[schemars(default)]
    pub zz: Box<Option<B>>,
    /// Doc r.
    #[serde(skip_serializing)]
    #[schemars(email)]
    #[serde(skip_deserializing)]
    pub x1_y2: Option<B>,
    #[deprecated]
    pub trail_: B,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(rename_all_fields = "SCREAMING_SNAKE_CASE")]
pub enum W31_1893 {
    X1Y2(
        #[validate(url)]
        B,
    ),
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(title = "Rt")]
    Zz(
        #[schemars(schema_with = "sup::sw2")]
        #[schemars(inner(length(min = 1)))]
        Option<A>,
    ),
    /// # Rt
    ///
    /// body
    #[serde(rename = "type2")]
    #[schemars(title = "Rt")]
    FooBarBaz,
    #[serde(skip)]
    W2(
        #[schemars(email)]
        Vec<String>,
    ),
    /// # Rt
    ///
    /// body
    #[deprecated]
    #[schemars(rename = "type3")]
    #[schemars(extend("x-r" = [1]))]
    Foo_Bar,
}
#[derive(JsonSchema)]
/// # Only
#[serde(untagged)]
#[serde(rename_all_fields(serialize = "PascalCase", deserialize = "PascalCase"))]
pub enum W31_1894 {
    Q(
        #[schemars(length(min = 1))]
        String,
        C,
        #[schemars(skip)]
        #[serde(skip_deserializing)]
        #[schemars(description = "Rd")]
        #[validate(url)]
        Inner1,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(rename_all_fields = "PascalCase")]
#[schemars(deny_unknown_fields)]
pub enum W31_1895 {
    W2 {
        #[serde(default)]
        #[schemars(rename = "$x1")]
        URL_part: Inner1,
        #[schemars(rename(serialize = "rs2", deserialize = "rd2"))]
        #[serde(flatten)]
        #[schemars(skip_serializing_if = "sif")]
        x1_y2: MapS,
        #[serde(skip_deserializing)]
        #[serde(skip_serializing)]
        #[schemars(schema_with = "sw_obj")]
        foo_bar: String,
    },
    /// # Rt
    ///
    /// body
    #[serde(rename_all = "snake_case")]
    #[schemars(transform = tr1)]
    Q {

    },
    /// Doc r.
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    URLPart(
        #[deprecated]
        Option<Refd>,
        #[schemars(description = "Rd")]
        D,
        #[schemars(regex(pattern = "^r"))]
        Option<B>,
    ),
    #[schemars(rename(serialize = "vs3", deserialize = "vd3"))]
    #[schemars(with = "Inner1")]
    #[serde(untagged)]
    Zz(
        #[schemars(title = "Rt")]
        #[validate(range(min = 1, max = 9))]
        InlineS,
        #[validate(range(min = 1, max = 9))]
        #[schemars(extend("type" = "null"))]
        Box<Option<B>>,
        Refd,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE"))]
pub enum W32_657 {
    /// Doc r.
    Zz(
        #[schemars(with = "Option<A>")]
        D,
    ),
    #[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "camelCase"))]
    #[schemars(example = 8)]
    URLPart {
        #[schemars(extend("readOnly" = false))]
        r#type: Option<u32>,
        /// Doc r.
        #[schemars(regex(pattern = "^r"))]
        a: D,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[schemars(rename_all(serialize = "snake_case", deserialize = "SCREAMING_SNAKE_CASE"))]
pub enum W32_658 {
    URLPart(
        #[schemars(contains("c.c"))]
        Option<u32>,
    ),
    #[serde(rename = "type1")]
    #[serde(rename_all = "snake_case")]
    Ab {
        #[schemars(schema_with = "sw_obj")]
        x1_y2: Refd,
    },
}
#[derive(JsonSchema, Default)]
/// Doc r.
#[serde(default)]
pub struct W32_659 {
    #[schemars(rename = "type1")]
    #[serde(default)]
    pub r#type: B,
    #[serde(flatten)]
    pub foo_bar_baz: Nested1,
    /// # Only
    #[schemars(email)]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(extend("title" = "Xt"))]
    pub trail_: Option<B>,
    #[deprecated]
    #[schemars(email)]
    pub q: Option<String>,
    /// # Rt
    ///
    /// body
    pub dbl__us: B,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(example = 8)]
#[serde(rename_all_fields(serialize = "SCREAMING-KEBAB-CASE"))]
pub enum W32_660 {
    /// # Rt
    ///
    /// body
    Zz(
        /// Doc r.
        #[schemars(regex(pattern = "^r"))]
        Inner1,
        MultiT,
    ),
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    #[serde(untagged)]
    #[schemars(transform = tr1)]
    A(
        /// # Rt
        ///
        /// body
        #[schemars(with = "Inner1")]
        bool,
    ),
}
#[derive(JsonSchema)]
pub struct W31_1896(
    #[schemars(skip_deserializing)]
    #[schemars(range(min = 2))]
    pub bool,
    /// # Only
    #[schemars(with = "String")]
    pub InlineS,
);
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(rename_all_fields = "UPPERCASE")]
pub enum W31_1897 {
    /// # Only
    Zz {
        #[serde(flatten)]
        foo_bar: Enum2,
    },
    #[serde(skip)]
    A {

    },
    /// # Rt
    ///
    /// body
    #[serde(skip_deserializing)]
    FooBar {

    },
    /// # Only
    #[serde(untagged)]
    W2 {
        #[garde(ipv4)]
        q: B,
        #[serde(flatten)]
        #[schemars(with = "String")]
        r#type: NullUn,
    },
}
#[derive(JsonSchema)]
#[schemars(example = 8)]
#[schemars(deny_unknown_fields)]
pub enum W32_661 {
    /// Doc r.
    #[schemars(title = "")]
    URLPart {
        #[serde(flatten)]
        q: Box<Inner2>,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(default)]
        #[validate(range(min = 1, max = 9))]
        foo_bar_baz: Box<Option<B>>,
    },
    FooBar(
        TT,
        InlineS,
    ),
    #[serde(rename = "type1")]
    X1Y2 {
        /// # Rt
        ///
        /// body
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        trail_: String,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(description = "Rd")]
pub struct W31_1898(
    /// Doc r.
    #[schemars(inner(length(min = 1)))]
    #[schemars(skip_serializing)]
    pub MultiT,
    #[schemars(extend("x-r" = [1]))]
    #[validate(required)]
    pub Option<String>,
    #[schemars(title = "")]
    pub A,
);
#[derive(JsonSchema)]
pub struct W32_662(
    /// # Only
    #[schemars(inner(length(min = 1)))]
    pub Option<A>,
);
#[derive(JsonSchema)]
/// Doc r.
#[schemars(description = "Rd")]
pub struct W32_663(
    pub B,
    #[deprecated]
    #[validate(length(max = 8))]
    #[schemars(extend("readOnly" = false))]
    #[schemars(required)]
    pub Option<Refd>,
    /// # Rt
    ///
    /// body
    pub Refd,
    /// Doc r.
    #[schemars(transform = tr1)]
    pub Option<B>,
);
#[derive(JsonSchema)]
/// # Only
pub struct W31_1899(
    #[schemars(title = "")]
    #[schemars(with = "Inner1")]
    #[serde(skip_serializing)]
    pub MultiT,
    /// Doc r.
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    pub TT,
    /// # Only
    pub Inner1,
    /// # Rt
    ///
    /// body
    #[validate(length(max = 8))]
    pub Option<B>,
);
#[derive(JsonSchema)]
#[serde(rename_all = "lowercase")]
pub struct W31_1900 {
    #[deprecated]
    #[schemars(rename = "type1")]
    pub w2: Vec<String>,
    #[schemars(default)]
    #[serde(flatten)]
    #[schemars(rename = "$x2")]
    pub URL_part: Deny1,
    #[serde(skip_serializing_if = "sif")]
    #[serde(skip_deserializing)]
    #[serde(flatten)]
    pub _lead: Inner1,
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    #[schemars(schema_with = "sw1")]
    #[serde(rename = "$x3")]
    #[schemars(skip_serializing_if = "sif")]
    pub foo_bar: MultiT,
    /// # Rt
    ///
    /// body
    #[garde(inner(range(max = 5)))]
    #[schemars(title = "")]
    pub dbl__us: Option<u32>,
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[serde(rename_all_fields(serialize = "SCREAMING-KEBAB-CASE"))]
pub enum W31_1901 {
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    #[schemars(schema_with = "sw_obj")]
    #[schemars(extend("x-r" = [1]))]
    W2(
        #[deprecated]
        Vec<String>,
    ),
    #[deprecated]
    #[serde(rename_all(serialize = "snake_case", deserialize = "UPPERCASE"))]
    URLPart {
        /// # Rt
        ///
        /// body
        #[schemars(email)]
        #[schemars(contains("c.c"))]
        q: Box<A>,
        #[validate(url)]
        dbl__us: Box<Option<B>>,
    },
    /// Doc r.
    Ab(
        /// # Rt
        ///
        /// body
        #[serde(skip_deserializing)]
        #[schemars(contains("c.c"))]
        Option<Refd>,
        u32,
        #[schemars(description = "Rd")]
        Option<A>,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
pub enum W31_1902 {
    /// # Rt
    ///
    /// body
    #[serde(skip)]
    #[schemars(!skip)]
    #[schemars(with = "B")]
    A {

    },
    FooBarBaz {

    },
    #[schemars(rename = "type1")]
    Q,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum W32_664 {
    /// # Only
    #[serde(untagged)]
    #[schemars(extend("title" = "Xt"))]
    W2,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
#[schemars(rename_all_fields(serialize = "camelCase", deserialize = "lowercase"))]
pub enum W31_1903 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    FooBarBaz {
        #[validate(required)]
        #[serde(rename = "$x1")]
        #[schemars(description = "Rd")]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(skip_deserializing)]
        _lead: Option<String>,
    },
    /// Doc r.
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    #[schemars(title = "Rt")]
    A(
        /// # Rt
        ///
        /// body
        Refd,
    ),
    /// # Only
    URLPart {
        #[serde(rename = "$x3")]
        #[serde(skip_serializing_if = "sif")]
        x1_y2: Refd,
    },
    /// # Only
    X1Y2,
    /// # Only
    Zz {

    },
}
#[derive(JsonSchema)]
/// # Only
pub struct W32_665(
    pub bool,
    pub D,
    pub TT,
);
#[derive(JsonSchema)]
/// # Only
pub struct W32_666(
    pub Option<Refd>,
);
#[derive(JsonSchema, Default)]
/// # Only
#[schemars(title = "")]
#[serde(default)]
pub struct W32_667 {
    #[schemars(schema_with = "sw_obj")]
    #[serde(flatten)]
    pub URL_part: MixEnum,
    #[deprecated]
    #[schemars(with = "Option<A>")]
    pub r#type: Option<B>,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(title = "")]
#[serde(rename_all = "lowercase")]
pub enum W31_1904 {
    /// # Only
    #[deprecated]
    #[schemars(schema_with = "sw_obj")]
    #[schemars(extend("x-r" = [1]))]
    A(
        #[deprecated]
        #[schemars(length(min = 1))]
        Box<Option<B>>,
        #[garde(length(equal = 3))]
        Inner1,
        #[serde(skip_serializing)]
        Option<u32>,
    ),
    #[schemars(title = "Rt")]
    W2,
    #[schemars(transform = tr1)]
    Zz,
    /// # Rt
    ///
    /// body
    X1Y2(
        Box<A>,
    ),
    /// # Only
    #[serde(rename_all(serialize = "kebab-case"))]
    URLPart {
        ab: D,
        #[serde(default)]
        #[schemars(extend("type" = "null"))]
        #[serde(skip)]
        #[schemars(!skip)]
        x1_y2: Option<B>,
        #[serde(flatten)]
        #[schemars(skip_serializing)]
        foo_bar: TT,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[schemars(extend("x-r" = [1]))]
#[schemars(rename_all_fields(serialize = "camelCase", deserialize = "kebab-case"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1905 {
    /// Doc r.
    #[schemars(transform = tr1)]
    Foo_Bar,
    A {
        #[schemars(schema_with = "sw_obj")]
        #[validate(url)]
        _lead: D,
        #[serde(flatten)]
        #[serde(rename(serialize = "rs21"))]
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        #[serde(skip_serializing_if = "sif")]
        r#type: OneUnit,
        #[schemars(skip_deserializing)]
        #[schemars(schema_with = "sw1")]
        q: MultiT,
    },
    /// Doc r.
    URLPart(
        /// # Only
        #[validate(url)]
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        u32,
        #[validate(url)]
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(example = 8)]
#[serde(rename_all(serialize = "lowercase", deserialize = "camelCase"))]
pub struct W31_1906 {
    #[serde(skip_serializing)]
    #[schemars(extend("x-r" = [1]))]
    #[schemars(rename = "rn1")]
    pub ab: MultiT,
    #[schemars(title = "Rt")]
    #[garde(ipv4)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(schema_with = "sw_obj")]
    pub foo_bar_baz: Vec<A>,
    pub foo_bar: A,
    #[validate(length(max = 8))]
    #[schemars(with = "String")]
    pub dbl__us: MultiT,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(description = "Rd")]
#[schemars(rename_all_fields(serialize = "kebab-case"))]
pub enum W32_668 {
    /// # Rt
    ///
    /// body
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    Foo_Bar {
        #[schemars(contains("c.c"))]
        q: B,
    },
    /// # Only
    Zz,
    #[serde(rename_all(serialize = "camelCase"))]
    Q {
        #[validate(range(min = 1, max = 9))]
        #[serde(skip_serializing_if = "sif")]
        _lead: Option<Refd>,
    },
}
#[derive(JsonSchema, Default)]
#[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(default)]
pub struct W32_669 {
    #[schemars(range(min = 2))]
    pub zz: Vec<String>,
    #[serde(flatten)]
    #[schemars(with = "B")]
    #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
    pub w2: OneEx,
}
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(title = "")]
#[schemars(rename_all = "camelCase")]
pub enum W31_1907 {
    #[serde(skip)]
    Zz {

    },
    /// Doc r.
    Foo_Bar(
        /// Doc r.
        #[schemars(inner(length(min = 1)))]
        #[schemars(regex(pattern = "^r"))]
        MultiT,
    ),
    FooBar {
        #[serde(flatten)]
        #[schemars(skip_serializing_if = "sif")]
        zz: Option<UnEnum>,
        #[schemars(flatten)]
        #[schemars(rename = "$x1")]
        _lead: Option<Enum1>,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W31_1908 {
    /// # Only
    #[garde(ipv4)]
    pub foo_bar_baz: InlineS,
    /// # Rt
    ///
    /// body
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(extend("x-r" = [1]))]
    #[schemars(rename = "zz91")]
    #[schemars(skip_deserializing)]
    pub zz: C,
    /// # Rt
    ///
    /// body
    #[serde(rename = "R n2")]
    #[schemars(extend("x-r" = [1]))]
    #[garde(length(equal = 3))]
    pub URL_part: TT,
    #[deprecated]
    #[schemars(description = "Rd")]
    #[schemars(with = "Inner1")]
    pub x1_y2: Refd,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[schemars(rename_all = "camelCase")]
pub enum W32_670 {
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    Foo_Bar {
        /// Doc r.
        #[schemars(rename = "rn1")]
        #[serde(default)]
        a: Option<String>,
        #[schemars(schema_with = "sup::sw2")]
        #[serde(default)]
        #[schemars(regex(pattern = "^r"))]
        URL_part: D,
        #[schemars(with = "Refd")]
        r#type: Refd,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(description = "Rd")]
#[schemars(rename_all(serialize = "camelCase", deserialize = "camelCase"))]
pub enum W32_671 {
    /// # Rt
    ///
    /// body
    A(
        Inner1,
    ),
    /// Doc r.
    #[serde(rename = "type1")]
    Zz,
    /// # Only
    #[schemars(rename = "type2")]
    URLPart(
        MultiT,
        /// # Rt
        ///
        /// body
        #[schemars(contains("c.c"))]
        Vec<A>,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W31_1909(
    #[schemars(skip)]
    pub B,
    #[schemars(skip_serializing)]
    #[schemars(inner(length(min = 1)))]
    pub bool,
    pub InlineS,
);
#[derive(JsonSchema)]
/// # Only
#[serde(untagged)]
#[schemars(title = "Rt")]
#[serde(deny_unknown_fields)]
pub enum W31_1910 {
    /// # Rt
    ///
    /// body
    #[serde(skip)]
    #[serde(rename = "vn1")]
    #[schemars(title = "Rt")]
    A(
        #[schemars(!skip_deserializing)]
        #[serde(skip_deserializing)]
        Vec<A>,
        #[deprecated]
        #[schemars(length(min = 1))]
        Option<String>,
        #[serde(skip_deserializing)]
        #[schemars(skip)]
        InlineS,
    ),
    #[schemars(title = "Rt")]
    X1Y2,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_672 {
    #[schemars(extend("readOnly" = false))]
    #[schemars(email)]
    pub ab: u32,
    #[serde(flatten)]
    pub foo_bar_baz: UnEnum,
    pub r#type: u32,
    /// # Only
    #[serde(default)]
    pub q: Option<Refd>,
    #[garde(ipv4)]
    pub trail_: MultiT,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_673(
    /// # Rt
    ///
    /// body
    #[schemars(extend("x-r" = [1]))]
    pub D,
);
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(transform = tr1)]
#[schemars(rename_all_fields(serialize = "kebab-case", deserialize = "SCREAMING-KEBAB-CASE"))]
pub enum W32_674 {
    /// Doc r.
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(example = 8)]
    Foo_Bar(
        #[schemars(transform = tr1)]
        Box<A>,
        #[schemars(length(min = 1))]
        Option<Refd>,
        MultiT,
    ),
    #[schemars(title = "Rt")]
    W2 {
        #[schemars(with = "String")]
        #[serde(flatten)]
        r#type: Enum1,
    },
    #[schemars(title = "")]
    Zz,
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(tag = "tg")]
pub enum W31_1911 {
    /// # Only
    #[serde(rename = "vn3")]
    #[schemars(extend("title" = "Xt"))]
    Q {
        #[serde(rename = "type1")]
        #[serde(flatten)]
        ab: TT,
        #[garde(inner(range(max = 5)))]
        #[schemars(rename = "R n2")]
        URL_part: D,
        #[deprecated]
        a: Option<A>,
    },
    /// # Only
    #[schemars(transform = tr1)]
    FooBar(
        Refd,
    ),
    /// Doc r.
    #[serde(skip)]
    #[schemars(!skip)]
    #[schemars(title = "")]
    Ab(
        #[schemars(extend("x-r" = [1]))]
        Option<String>,
    ),
    /// Doc r.
    #[deprecated]
    #[schemars(extend("x-r" = [1]))]
    A(
        #[schemars(schema_with = "sw1")]
        A,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(rename_all = "snake_case")]
pub enum W32_675 {
    Zz {

    },
    /// # Only
    #[schemars(rename_all = "camelCase")]
    #[schemars(title = "")]
    Foo_Bar {
        /// # Rt
        ///
        /// body
        trail_: Option<Refd>,
        #[schemars(skip_serializing_if = "sif")]
        #[serde(rename = "$x1")]
        #[schemars(with = "Inner1")]
        r#type: Refd,
    },
    #[schemars(title = "Rt")]
    X1Y2,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct W32_676 {
    #[serde(default)]
    pub trail_: Inner1,
}
#[derive(JsonSchema)]
#[serde(rename_all = "kebab-case")]
pub struct W32_677 {
    /// Doc r.
    #[schemars(email)]
    pub dbl__us: Option<String>,
}
#[derive(JsonSchema)]
#[schemars(title = "Rt")]
pub struct W32_678(
    #[validate(length(max = 8))]
    pub u32,
);
#[derive(JsonSchema)]
/// # Only
#[serde(untagged)]
pub enum W31_1912 {
    /// # Only
    URLPart(
        String,
        #[serde(skip_serializing)]
        #[schemars(email)]
        Vec<A>,
    ),
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(schema_with = "sw1")]
    FooBarBaz {

    },
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(rename_all = "kebab-case")]
pub enum W31_1913 {
    #[serde(rename = "vn1")]
    Ab(
        Option<u32>,
        Vec<A>,
    ),
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    W2,
    /// # Only
    FooBar {
        /// # Only
        #[schemars(with = "Option<A>")]
        #[serde(skip_serializing_if = "sif")]
        #[garde(length(equal = 3))]
        foo_bar: Option<A>,
        #[schemars(flatten)]
        #[schemars(with = "Inner1")]
        r#type: Inner2,
    },
    /// Doc r.
    #[schemars(description = "Rd")]
    X1Y2 {
        #[schemars(email)]
        x1_y2: Option<Refd>,
    },
    /// Doc r.
    #[schemars(rename_all = "PascalCase")]
    Zz {
        #[schemars(extend("x-r" = [1]))]
        #[serde(skip_deserializing)]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(regex(pattern = "^r"))]
        r#type: Option<Refd>,
        #[serde(skip_deserializing)]
        #[schemars(default)]
        #[schemars(skip)]
        foo_bar: String,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "snake_case"))]
pub struct W32_679 {
    #[schemars(title = "Rt")]
    #[schemars(default)]
    #[garde(length(equal = 3))]
    pub a: bool,
    #[schemars(range(min = 2))]
    #[serde(skip_serializing_if = "sif")]
    pub ab: Option<A>,
    #[schemars(default)]
    #[schemars(rename = "zz91")]
    #[validate(url)]
    pub zz: Inner1,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W32_680 {
    #[schemars(with = "Option<A>")]
    #[validate(length(max = 8))]
    pub a: u32,
    /// Doc r.
    #[serde(default)]
    pub _lead: InlineS,
}
#[derive(JsonSchema, Default)]
#[serde(rename_all(serialize = "camelCase", deserialize = "SCREAMING-KEBAB-CASE"))]
#[serde(default)]
pub struct W31_1914 {
    #[serde(skip_serializing)]
    #[schemars(transform = tr1)]
    pub a: A,
}
#[derive(JsonSchema)]
pub enum W31_1915 {
    #[schemars(skip_deserializing)]
    #[schemars(extend("x-r" = [1]))]
    FooBarBaz,
    #[deprecated]
    Foo_Bar {
        #[serde(rename = "type1")]
        r#type: InlineS,
        #[schemars(rename = "$x2")]
        #[schemars(skip_serializing_if = "sif")]
        trail_: Inner1,
        /// # Only
        #[schemars(inner(length(min = 1)))]
        URL_part: Option<B>,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(deny_unknown_fields)]
pub struct W32_681 {
    #[serde(rename(serialize = "rs21"))]
    pub trail_: bool,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(rename(serialize = "rs22"))]
    pub foo_bar_baz: InlineS,
}
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[schemars(description = "Rd")]
pub enum W32_682 {
    X1Y2,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(rename_all(serialize = "lowercase", deserialize = "SCREAMING-KEBAB-CASE"))]
#[serde(rename_all_fields(serialize = "kebab-case", deserialize = "kebab-case"))]
#[serde(deny_unknown_fields)]
pub enum W31_1916 {
    /// # Only
    #[schemars(example = 8)]
    X1Y2 {

    },
    /// # Rt
    ///
    /// body
    FooBarBaz {
        #[schemars(schema_with = "sw_obj")]
        #[schemars(extend("type" = "null"))]
        #[schemars(skip_serializing_if = "sif")]
        #[garde(inner(range(max = 5)))]
        URL_part: D,
        #[schemars(title = "")]
        #[serde(skip_serializing)]
        zz: Option<String>,
    },
    /// # Rt
    ///
    /// body
    FooBar(
        #[schemars(required)]
        #[schemars(contains("c.c"))]
        Option<Refd>,
    ),
    /// Doc r.
    #[serde(skip)]
    #[serde(rename = "vn1")]
    Foo_Bar,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W32_683(
    #[schemars(schema_with = "sw_obj")]
    pub InlineS,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(rename_all(serialize = "snake_case"))]
pub struct W31_1917 {
    /// # Only
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(title = "")]
    pub URL_part: InlineS,
    /// Doc r.
    #[schemars(required)]
    #[schemars(length(min = 1))]
    #[schemars(email)]
    pub q: Option<u32>,
    /// # Rt
    ///
    /// body
    #[schemars(with = "Option<A>")]
    #[schemars(default)]
    pub r#type: Box<Option<B>>,
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[schemars(title = "Rt")]
#[serde(rename_all(serialize = "PascalCase"))]
pub enum W31_1918 {
    /// # Rt
    ///
    /// body
    #[serde(rename = "type1")]
    FooBar,
    A {
        #[schemars(skip_serializing_if = "sif")]
        #[validate(length(max = 8))]
        trail_: MultiT,
        #[deprecated]
        #[schemars(default)]
        #[serde(rename(serialize = "rs2", deserialize = "rd2"))]
        _lead: Option<B>,
    },
    /// Doc r.
    W2(
        #[garde(length(equal = 3))]
        u32,
        #[schemars(!skip)]
        #[schemars(with = "String")]
        #[schemars(range(min = 2))]
        #[serde(skip)]
        Inner1,
    ),
    /// # Only
    #[serde(rename_all = "UPPERCASE")]
    FooBarBaz {
        #[serde(skip_serializing)]
        #[schemars(rename(serialize = "rs3", deserialize = "rd3"))]
        #[schemars(skip_deserializing)]
        #[schemars(transform = tr1)]
        #[schemars(schema_with = "sw_obj")]
        #[schemars(range(min = 2))]
        foo_bar: Vec<A>,
        #[serde(skip_serializing_if = "sif")]
        _lead: bool,
        #[schemars(flatten)]
        ab: Deny1,
    },
    /// # Rt
    ///
    /// body
    Q(
        #[deprecated]
        #[schemars(extend("readOnly" = false))]
        Vec<String>,
        Inner1,
    ),
}
#[derive(JsonSchema, Default)]
/// Doc r.
#[serde(default)]
pub struct W32_684 {
    #[schemars(skip_serializing_if = "sif")]
    pub a: InlineS,
    pub dbl__us: String,
    #[serde(flatten)]
    pub r#type: InnerO,
    pub trail_: Vec<A>,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[schemars(rename_all_fields(serialize = "PascalCase", deserialize = "SCREAMING_SNAKE_CASE"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1919 {
    #[schemars(skip_serializing)]
    #[schemars(extend("x-r" = [1]))]
    X1Y2 {
        #[schemars(inner(length(min = 1)))]
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        #[schemars(email)]
        r#type: A,
    },
    /// # Only
    #[schemars(rename_all(serialize = "kebab-case", deserialize = "camelCase"))]
    W2 {
        #[schemars(!skip_deserializing)]
        #[serde(skip_deserializing)]
        #[serde(skip_serializing_if = "sif")]
        trail_: bool,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all(serialize = "lowercase"))]
pub struct W32_685 {
    #[schemars(with = "String")]
    pub q: D,
    #[schemars(skip_serializing_if = "sif")]
    #[validate(range(min = 1, max = 9))]
    pub ab: Option<String>,
    #[schemars(range(min = 2))]
    #[garde(required)]
    #[schemars(extend("readOnly" = false))]
    pub _lead: Option<u32>,
    #[schemars(flatten)]
    #[schemars(schema_with = "sw1")]
    #[serde(rename(serialize = "rs21"))]
    pub URL_part: UnitEnum,
    #[schemars(with = "Option<A>")]
    #[schemars(default)]
    #[serde(flatten)]
    pub zz: Inner1,
}
#[derive(JsonSchema)]
pub struct W32_686 {
    #[schemars(flatten)]
    #[serde(default)]
    pub ab: Inner1,
    #[serde(skip_serializing_if = "sif")]
    #[schemars(flatten)]
    pub URL_part: Opt2,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(rename_all(serialize = "PascalCase"))]
#[serde(deny_unknown_fields)]
pub struct W32_687 {
    /// Doc r.
    #[serde(rename = "R n1")]
    pub dbl__us: Refd,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[schemars(extend("x-r" = [1]))]
#[serde(rename_all = "camelCase")]
pub enum W31_1920 {
    #[schemars(skip_deserializing)]
    #[serde(rename = "vn1")]
    Ab {
        /// # Rt
        ///
        /// body
        #[garde(inner(range(max = 5)))]
        URL_part: MultiT,
        #[serde(flatten)]
        trail_: NoMix,
    },
    /// Doc r.
    #[schemars(description = "Rd")]
    W2 {
        #[serde(rename = "zz92")]
        #[serde(skip_serializing_if = "sif")]
        zz: Refd,
    },
    /// # Only
    #[serde(untagged)]
    #[schemars(extend("title" = "Xt"))]
    FooBar,
}
#[derive(JsonSchema, Default)]
#[schemars(transform = tr1)]
#[schemars(rename_all = "lowercase")]
#[serde(default)]
pub struct W31_1921 {
    #[schemars(transform = tr1)]
    #[schemars(contains("c.c"))]
    #[serde(rename(serialize = "rs21"))]
    pub q: InlineS,
    pub _lead: A,
    #[serde(flatten)]
    #[schemars(schema_with = "sw_obj")]
    pub foo_bar_baz: Enum1,
    #[schemars(title = "")]
    #[serde(skip_deserializing)]
    #[serde(default)]
    pub ab: Option<B>,
    #[serde(flatten)]
    pub w2: Enum1,
}
#[derive(JsonSchema, Default)]
#[serde(rename_all(serialize = "UPPERCASE"))]
#[serde(default)]
pub struct W32_688 {
    #[schemars(range(min = 2))]
    #[schemars(schema_with = "sup::sw2")]
    pub r#type: A,
}
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_689 {
    #[schemars(rename_all = "kebab-case")]
    FooBar {
        #[schemars(flatten)]
        #[serde(rename = "$x1")]
        x1_y2: Inner1,
        #[serde(skip_serializing_if = "sif")]
        #[serde(rename = "type2")]
        #[schemars(flatten)]
        a: Option<UnEnum>,
    },
    /// # Rt
    ///
    /// body
    #[schemars(rename = "type3")]
    #[serde(rename_all(serialize = "PascalCase"))]
    Zz {

    },
    /// # Rt
    ///
    /// body
    URLPart(
        /// # Only
        Box<A>,
    ),
    X1Y2(
        InlineS,
    ),
}
#[derive(JsonSchema)]
pub struct W32_690 {
    /// Doc r.
    pub foo_bar: String,
    #[schemars(range(min = 2))]
    pub ab: Box<Option<B>>,
    /// # Rt
    ///
    /// body
    #[garde(inner(range(max = 5)))]
    #[serde(default)]
    pub trail_: u32,
}
#[derive(JsonSchema)]
pub struct W31_1922(
    #[schemars(title = "Rt")]
    #[schemars(email)]
    pub TT,
    #[deprecated]
    #[serde(skip_serializing)]
    pub Option<Refd>,
    /// # Rt
    ///
    /// body
    #[deprecated]
    #[schemars(with = "Option<A>")]
    pub Option<B>,
    /// # Rt
    ///
    /// body
    #[schemars(length(min = 1))]
    pub Inner1,
);
#[derive(JsonSchema)]
#[schemars(rename_all_fields = "UPPERCASE")]
#[serde(deny_unknown_fields)]
pub enum W32_691 {
    Zz(
        Vec<A>,
    ),
    /// # Rt
    ///
    /// body
    Ab {

    },
    X1Y2 {

    },
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_692 {
    /// Doc r.
    #[serde(rename = "rn1")]
    pub q: C,
    #[garde(length(equal = 3))]
    #[schemars(rename(serialize = "rs2", deserialize = "rd2"))]
    #[validate(url)]
    pub trail_: InlineS,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_693(
    /// # Rt
    ///
    /// body
    pub TT,
);
#[derive(JsonSchema)]
#[schemars(extend("title" = "Xt"))]
pub struct W31_1923(
    #[validate(url)]
    #[validate(range(min = 1, max = 9))]
    pub D,
    /// Doc r.
    #[serde(skip_deserializing)]
    pub MultiT,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(rename_all(serialize = "UPPERCASE"))]
#[serde(deny_unknown_fields)]
pub enum W31_1924 {
    #[serde(rename = "vn1")]
    URLPart(
        InlineS,
        #[schemars(skip_deserializing)]
        #[serde(skip_serializing)]
        D,
    ),
    #[schemars(skip_serializing)]
    FooBar(
        #[validate(length(max = 8))]
        Vec<String>,
        /// # Rt
        ///
        /// body
        #[schemars(description = "Rd")]
        Inner1,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(title = "Rt")]
    Q,
    /// Doc r.
    #[serde(untagged)]
    #[schemars(transform = tr1)]
    Ab(
        #[schemars(transform = tr1)]
        #[schemars(contains("c.c"))]
        Vec<A>,
        #[schemars(with = "String")]
        Vec<A>,
        String,
    ),
    /// # Only
    #[serde(untagged)]
    X1Y2(
        /// # Rt
        ///
        /// body
        Vec<A>,
        #[schemars(!skip)]
        #[serde(skip)]
        u32,
        #[validate(range(min = 1, max = 9))]
        Box<A>,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(untagged)]
#[schemars(title = "")]
#[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "lowercase"))]
pub enum W31_1925 {
    /// Doc r.
    Ab,
    #[schemars(skip)]
    URLPart,
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "lowercase"))]
    Foo_Bar {

    },
    FooBar(
        #[schemars(extend("readOnly" = false))]
        B,
        #[schemars(with = "B")]
        #[schemars(contains("c.c"))]
        #[garde(inner(range(max = 5)))]
        Vec<A>,
    ),
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    Q(
        /// # Rt
        ///
        /// body
        #[schemars(extend("title" = "Xt"))]
        D,
    ),
}
#[derive(JsonSchema, Default)]
/// # Only
#[schemars(rename_all(serialize = "PascalCase", deserialize = "snake_case"))]
#[serde(default)]
pub struct W32_694 {
    #[schemars(contains("c.c"))]
    #[serde(rename = "rn1")]
    pub dbl__us: Option<A>,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(rename_all(serialize = "PascalCase"))]
#[serde(deny_unknown_fields)]
pub struct W31_1926 {
    #[deprecated]
    #[validate(url)]
    #[schemars(title = "Rt")]
    pub r#type: TT,
    #[validate(length(max = 8))]
    #[schemars(skip_serializing_if = "sif")]
    #[serde(default)]
    #[schemars(skip_deserializing)]
    #[serde(skip_serializing)]
    pub zz: D,
    /// # Only
    #[schemars(skip_serializing_if = "sif")]
    pub w2: u32,
    #[schemars(rename = "R n1")]
    #[serde(default)]
    pub _lead: Box<Option<B>>,
    #[serde(skip_serializing_if = "sif")]
    #[serde(rename(serialize = "rs2", deserialize = "rd2"))]
    #[validate(length(max = 8))]
    #[schemars(skip_deserializing)]
    pub trail_: u32,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_695(
    #[deprecated]
    #[schemars(with = "Refd")]
    #[schemars(example = 8)]
    pub Option<A>,
);
#[derive(JsonSchema)]
/// Doc r.
#[schemars(tag = "tg")]
#[schemars(rename_all_fields = "UPPERCASE")]
pub enum W31_1927 {
    #[deprecated]
    #[schemars(skip_deserializing)]
    #[schemars(title = "")]
    Ab {
        #[serde(default)]
        #[schemars(rename = "type1")]
        x1_y2: MultiT,
    },
    #[serde(skip)]
    #[serde(rename_all = "camelCase")]
    Zz {
        #[schemars(example = 8)]
        #[serde(rename = "type2")]
        w2: Option<B>,
        #[schemars(extend("title" = "Xt"))]
        x1_y2: Refd,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(untagged)]
#[schemars(extend("x-r" = [1]))]
#[schemars(rename_all_fields(serialize = "snake_case", deserialize = "lowercase"))]
pub enum W32_696 {
    #[schemars(rename = "type1")]
    #[schemars(transform = tr1)]
    X1Y2(
        /// # Rt
        ///
        /// body
        C,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields = "camelCase")]
#[serde(deny_unknown_fields)]
pub enum W31_1928 {
    X1Y2(
        #[schemars(extend("title" = "Xt"))]
        Inner1,
    ),
    #[serde(skip)]
    #[schemars(!skip)]
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(example = 8)]
    Foo_Bar(
        #[schemars(length(min = 1))]
        #[schemars(transform = tr1)]
        B,
        #[validate(range(min = 1, max = 9))]
        Option<Refd>,
        #[serde(skip_deserializing)]
        #[validate(length(max = 8))]
        #[schemars(!skip_deserializing)]
        #[validate(range(min = 1, max = 9))]
        MultiT,
    ),
    Ab {
        #[serde(default)]
        #[garde(length(equal = 3))]
        x1_y2: TT,
        _lead: C,
        /// Doc r.
        #[schemars(title = "")]
        a: Inner1,
    },
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    #[schemars(schema_with = "sw1")]
    Zz(
        String,
        InlineS,
    ),
    #[deprecated]
    #[serde(skip_serializing)]
    FooBarBaz {
        #[serde(skip_serializing_if = "sif")]
        #[garde(ipv4)]
        trail_: u32,
    },
}
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[schemars(transform = tr1)]
#[schemars(rename_all(serialize = "camelCase", deserialize = "UPPERCASE"))]
pub enum W31_1929 {
    #[schemars(description = "Rd")]
    FooBarBaz,
    #[serde(rename = "type2")]
    #[schemars(extend("title" = "Xt"))]
    FooBar(
        /// # Rt
        ///
        /// body
        Box<Option<B>>,
    ),
    URLPart(
        #[schemars(email)]
        Option<B>,
    ),
    #[schemars(rename = "type1")]
    #[serde(untagged)]
    W2,
    /// Doc r.
    #[serde(rename = "vn3")]
    #[serde(untagged)]
    X1Y2 {
        #[serde(default)]
        #[serde(skip_serializing)]
        a: MultiT,
        #[serde(skip_deserializing)]
        w2: Option<u32>,
    },
}
#[derive(JsonSchema)]
pub enum W31_1930 {
    /// # Only
    #[serde(rename_all(serialize = "snake_case"))]
    #[schemars(transform = tr1)]
    Q {
        /// # Rt
        ///
        /// body
        #[deprecated]
        #[schemars(skip)]
        #[serde(skip_deserializing)]
        r#type: InlineS,
        /// # Rt
        ///
        /// body
        #[schemars(regex(pattern = "^r"))]
        zz: D,
        #[schemars(extend("x-r" = [1]))]
        ab: Refd,
    },
    #[serde(rename = "type1")]
    #[schemars(schema_with = "sw_obj")]
    A(
        /// Doc r.
        #[schemars(schema_with = "sup::sw2")]
        #[schemars(title = "Rt")]
        C,
        #[garde(inner(range(max = 5)))]
        Box<A>,
        #[schemars(extend("readOnly" = false))]
        String,
    ),
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W32_697(
    #[schemars(with = "String")]
    pub Option<Refd>,
);
#[derive(JsonSchema)]
pub struct W32_698 {
    #[schemars(skip_serializing_if = "sif")]
    #[serde(default)]
    pub q: D,
    /// # Only
    #[deprecated]
    #[schemars(inner(length(min = 1)))]
    #[schemars(with = "String")]
    pub x1_y2: Inner1,
    #[serde(skip_serializing_if = "sif")]
    pub ab: C,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W32_699 {
    #[schemars(extend("x-r" = [1]))]
    URLPart {

    },
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
pub struct W32_700 {
    #[schemars(rename = "R n1")]
    #[serde(flatten)]
    pub URL_part: OneUn,
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(schema_with = "sw_obj")]
    #[garde(inner(range(max = 5)))]
    #[serde(rename = "rn2")]
    pub dbl__us: TT,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(rename_all = "camelCase")]
#[serde(rename_all_fields = "PascalCase")]
pub enum W31_1931 {
    /// # Only
    #[schemars(description = "Rd")]
    Q(
        #[schemars(email)]
        #[schemars(extend("title" = "Xt"))]
        TT,
    ),
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[schemars(rename_all = "snake_case")]
    Ab {
        #[serde(flatten)]
        trail_: Nested1,
    },
    #[schemars(with = "Inner1")]
    A(
        String,
    ),
}
#[derive(JsonSchema, Default)]
#[schemars(rename_all(serialize = "kebab-case"))]
#[serde(default)]
pub struct W32_701 {
    #[schemars(default)]
    #[serde(skip_serializing_if = "sif")]
    pub q: u32,
    /// Doc r.
    #[schemars(inner(length(min = 1)))]
    #[serde(default)]
    #[schemars(schema_with = "sw_obj")]
    pub zz: TT,
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_702 {
    #[garde(inner(range(max = 5)))]
    pub foo_bar_baz: B,
    /// Doc r.
    #[serde(rename = "$x1")]
    pub ab: Vec<String>,
    /// Doc r.
    #[schemars(extend("x-r" = [1]))]
    #[schemars(default)]
    pub _lead: String,
    #[serde(flatten)]
    #[schemars(skip_serializing_if = "sif")]
    pub w2: Enum1,
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
pub enum W32_703 {
    #[serde(rename = "type4")]
    Zz {
        #[serde(rename = "rn1")]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(extend("type" = "null"))]
        foo_bar_baz: Inner1,
        /// Doc r.
        #[schemars(rename(serialize = "rs2", deserialize = "rd2"))]
        r#type: u32,
        /// # Rt
        ///
        /// body
        #[serde(rename = "type3")]
        #[schemars(skip_serializing_if = "sif")]
        dbl__us: Option<Refd>,
    },
    /// Doc r.
    Foo_Bar(
        /// Doc r.
        #[schemars(schema_with = "sup::sw2")]
        String,
        InlineS,
        Option<Refd>,
    ),
    /// # Only
    URLPart {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(title = "Rt")]
#[serde(rename_all(serialize = "snake_case", deserialize = "snake_case"))]
#[serde(rename_all_fields = "snake_case")]
pub enum W31_1932 {
    A(
        #[schemars(email)]
        TT,
        #[schemars(!skip_deserializing)]
        #[schemars(schema_with = "sup::sw2")]
        #[serde(skip_deserializing)]
        B,
        /// # Only
        #[schemars(with = "B")]
        Option<B>,
    ),
    /// # Only
    #[serde(rename = "type1")]
    Foo_Bar(
        /// # Rt
        ///
        /// body
        #[schemars(skip)]
        Vec<A>,
        InlineS,
        #[schemars(inner(length(min = 1)))]
        C,
    ),
    /// Doc r.
    #[schemars(title = "")]
    Zz(
        Refd,
        Refd,
        #[schemars(with = "Refd")]
        #[schemars(contains("c.c"))]
        #[schemars(length(min = 1))]
        Option<B>,
    ),
    Q,
    /// Doc r.
    #[serde(rename_all(serialize = "PascalCase"))]
    W2 {
        /// # Rt
        ///
        /// body
        #[validate(length(max = 8))]
        #[serde(rename(serialize = "rs22"))]
        _lead: Refd,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(extend("title" = "Xt"))]
#[serde(rename_all = "kebab-case")]
pub enum W31_1933 {
    #[schemars(rename = "vn1")]
    URLPart,
    #[serde(rename = "type3")]
    #[serde(rename_all = "camelCase")]
    Q {
        #[schemars(skip_serializing_if = "sif")]
        q: Box<A>,
        #[schemars(rename = "$x2")]
        #[serde(flatten)]
        #[serde(skip_serializing)]
        x1_y2: UnitEnum,
        /// # Only
        foo_bar: MultiT,
    },
    /// # Only
    #[schemars(rename = "type4")]
    X1Y2(
        /// # Rt
        ///
        /// body
        B,
    ),
    /// # Only
    FooBarBaz(
        #[schemars(extend("x-r" = [1]))]
        Refd,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
    #[serde(untagged)]
    #[schemars(title = "Rt")]
    A {
        x1_y2: Refd,
        /// Doc r.
        URL_part: C,
    },
}
#[derive(JsonSchema)]
/// # Only
#[serde(rename_all = "camelCase")]
pub struct W32_704 {
    #[schemars(example = 8)]
    pub URL_part: InlineS,
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields(serialize = "SCREAMING-KEBAB-CASE"))]
#[schemars(deny_unknown_fields)]
pub enum W31_1934 {
    /// # Only
    Foo_Bar {
        #[validate(url)]
        #[serde(skip)]
        r#type: Refd,
        /// # Rt
        ///
        /// body
        #[schemars(transform = tr1)]
        _lead: bool,
        #[serde(flatten)]
        #[serde(skip_serializing_if = "sif")]
        x1_y2: UnEnum,
    },
    /// Doc r.
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(rename_all = "lowercase")]
    #[schemars(extend("x-r" = [1]))]
    Ab {
        #[serde(skip)]
        w2: String,
    },
}
#[derive(JsonSchema)]
#[schemars(extend("title" = "Xt"))]
pub enum W32_705 {
    #[serde(rename = "vn1")]
    URLPart,
}
#[derive(JsonSchema)]
#[schemars(untagged)]
#[schemars(rename_all_fields(serialize = "camelCase"))]
pub enum W31_1935 {
    /// # Rt
    ///
    /// body
    #[schemars(schema_with = "sw_obj")]
    W2 {
        /// # Rt
        ///
        /// body
        #[deprecated]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(!skip_serializing)]
        #[validate(url)]
        #[schemars(extend("title" = "Xt"))]
        #[serde(skip_serializing)]
        _lead: D,
    },
    #[serde(rename = "type1")]
    Foo_Bar(
        #[schemars(extend("readOnly" = false))]
        Box<Option<B>>,
        #[schemars(schema_with = "sw1")]
        B,
    ),
}
#[derive(JsonSchema)]
pub struct W31_1936(
    #[schemars(transform = tr1)]
    #[garde(inner(range(max = 5)))]
    #[serde(skip)]
    pub u32,
    #[schemars(extend("readOnly" = false))]
    #[schemars(skip)]
    pub Vec<String>,
    #[schemars(regex(pattern = "^r"))]
    pub Refd,
    pub String,
);
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_706(
    #[schemars(schema_with = "sw1")]
    pub String,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(extend("title" = "Xt"))]
#[serde(rename_all(serialize = "snake_case"))]
pub struct W32_707 {
    #[serde(rename = "$x1")]
    pub _lead: A,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(title = "")]
#[schemars(rename_all = "kebab-case")]
#[schemars(rename_all_fields(serialize = "snake_case", deserialize = "lowercase"))]
pub enum W31_1937 {
    #[schemars(skip)]
    #[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
    Zz {

    },
    X1Y2(
        #[validate(url)]
        MultiT,
    ),
    /// # Only
    #[schemars(rename_all = "snake_case")]
    #[schemars(title = "Rt")]
    FooBarBaz {
        /// # Only
        #[validate(range(min = 1, max = 9))]
        foo_bar: Option<u32>,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields = "SCREAMING-KEBAB-CASE")]
pub enum W31_1938 {
    A {

    },
    /// # Rt
    ///
    /// body
    #[serde(rename_all = "lowercase")]
    #[schemars(extend("title" = "Xt"))]
    Q {
        #[serde(skip)]
        #[garde(ipv4)]
        w2: MultiT,
    },
    /// # Rt
    ///
    /// body
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(example = 8)]
    Zz {
        #[deprecated]
        #[schemars(schema_with = "sup::sw2")]
        q: Option<A>,
    },
    W2 {

    },
    /// # Only
    #[serde(rename = "type2")]
    #[schemars(rename_all(serialize = "PascalCase"))]
    FooBarBaz {
        #[schemars(range(min = 2))]
        #[schemars(with = "B")]
        #[serde(skip_deserializing)]
        URL_part: Vec<A>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(transform = tr1)]
#[schemars(rename_all_fields = "kebab-case")]
pub enum W31_1939 {
    /// Doc r.
    FooBar(
        #[schemars(email)]
        #[schemars(description = "Rd")]
        #[schemars(length(min = 1))]
        Option<Refd>,
        #[validate(length(max = 8))]
        D,
    ),
    #[deprecated]
    #[schemars(description = "Rd")]
    X1Y2,
    #[schemars(extend("title" = "Xt"))]
    A,
    /// # Only
    #[schemars(rename(serialize = "vs2", deserialize = "vd2"))]
    Foo_Bar(
        /// # Only
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        #[schemars(schema_with = "sw_obj")]
        D,
        #[schemars(with = "String")]
        #[schemars(email)]
        MultiT,
        /// # Only
        #[schemars(schema_with = "sw_obj")]
        Option<u32>,
    ),
    /// # Only
    #[serde(untagged)]
    Zz {
        #[serde(rename = "rn1")]
        #[schemars(flatten)]
        foo_bar_baz: Deny1,
        /// # Rt
        ///
        /// body
        #[serde(skip_serializing_if = "sif")]
        #[schemars(example = 8)]
        q: MultiT,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(example = 8)]
#[schemars(rename_all(serialize = "snake_case", deserialize = "SCREAMING_SNAKE_CASE"))]
pub enum W32_708 {
    /// # Rt
    ///
    /// body
    #[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE"))]
    Ab {

    },
    /// # Rt
    ///
    /// body
    X1Y2,
    #[deprecated]
    Zz {
        #[schemars(extend("title" = "Xt"))]
        trail_: InlineS,
        #[schemars(title = "Rt")]
        x1_y2: Option<B>,
        #[garde(inner(range(max = 5)))]
        zz: u32,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
#[serde(deny_unknown_fields)]
pub enum W32_709 {
    /// # Only
    #[serde(rename = "type2")]
    #[serde(rename_all = "PascalCase")]
    Zz {
        /// # Rt
        ///
        /// body
        #[schemars(skip_serializing_if = "sif")]
        #[serde(default)]
        x1_y2: String,
        #[schemars(range(min = 2))]
        #[serde(rename(serialize = "rs21"))]
        r#type: Box<Option<B>>,
    },
    #[serde(rename = "type4")]
    X1Y2(
        #[schemars(inner(length(min = 1)))]
        Option<B>,
    ),
    #[schemars(rename = "vn3")]
    #[serde(untagged)]
    #[schemars(extend("title" = "Xt"))]
    Ab(
        Vec<String>,
    ),
}
#[derive(JsonSchema)]
#[schemars(title = "")]
#[schemars(rename_all_fields(serialize = "SCREAMING-KEBAB-CASE"))]
pub enum W31_1940 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    FooBarBaz(
        #[garde(inner(range(max = 5)))]
        D,
    ),
}
#[derive(JsonSchema)]
pub struct W32_710(
    /// Doc r.
    #[schemars(schema_with = "sw1")]
    #[schemars(contains("c.c"))]
    pub A,
);
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
pub enum W31_1941 {
    #[serde(rename = "type1")]
    #[schemars(title = "")]
    X1Y2,
    /// # Only
    #[schemars(skip_deserializing)]
    #[serde(rename = "type2")]
    W2 {

    },
    #[schemars(skip)]
    Ab,
    /// Doc r.
    Zz {

    },
    /// # Rt
    ///
    /// body
    FooBar {
        #[schemars(schema_with = "sw_obj")]
        #[serde(flatten)]
        x1_y2: Uneval1,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(title = "")]
#[schemars(rename_all = "camelCase")]
#[schemars(rename_all_fields = "PascalCase")]
#[serde(deny_unknown_fields)]
pub enum W31_1942 {
    #[schemars(rename = "type1")]
    Zz,
    /// # Rt
    ///
    /// body
    #[serde(rename = "type2")]
    #[schemars(schema_with = "sw1")]
    #[schemars(title = "")]
    FooBar(
        Box<Option<B>>,
    ),
    /// Doc r.
    #[serde(rename = "type3")]
    #[schemars(extend("x-r" = [1]))]
    FooBarBaz(
        /// Doc r.
        #[schemars(schema_with = "sw1")]
        #[garde(ipv4)]
        #[schemars(!skip_deserializing)]
        #[serde(skip_deserializing)]
        Inner1,
        InlineS,
    ),
    W2(
        /// Doc r.
        #[serde(skip_deserializing)]
        #[schemars(inner(length(min = 1)))]
        C,
        #[schemars(extend("readOnly" = false))]
        Option<u32>,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(rename_all = "camelCase")]
pub enum W31_1943 {
    #[schemars(description = "Rd")]
    Q(
        /// # Only
        #[validate(range(min = 1, max = 9))]
        #[serde(skip_serializing)]
        #[schemars(example = 8)]
        Box<A>,
        #[schemars(schema_with = "sw_obj")]
        Vec<String>,
        #[schemars(skip_deserializing)]
        #[schemars(range(min = 2))]
        #[serde(skip_serializing)]
        Refd,
    ),
    /// Doc r.
    #[schemars(title = "Rt")]
    Zz,
    /// # Only
    X1Y2,
    /// Doc r.
    #[serde(skip_serializing)]
    #[serde(skip_deserializing)]
    #[schemars(rename = "vn1")]
    A(
        A,
    ),
    URLPart(
        #[schemars(email)]
        #[serde(skip_serializing)]
        #[serde(skip_deserializing)]
        Refd,
        Option<u32>,
        /// Doc r.
        Vec<A>,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(example = 8)]
#[serde(rename_all = "lowercase")]
#[schemars(rename_all_fields = "UPPERCASE")]
#[serde(deny_unknown_fields)]
pub enum W31_1944 {
    /// Doc r.
    #[serde(rename = "vn1")]
    Ab {
        /// Doc r.
        #[schemars(range(min = 2))]
        a: D,
        /// # Rt
        ///
        /// body
        #[serde(skip_deserializing)]
        #[schemars(regex(pattern = "^r"))]
        #[schemars(skip)]
        w2: Option<u32>,
    },
    /// # Rt
    ///
    /// body
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Q(
        #[deprecated]
        #[schemars(extend("type" = "null"))]
        #[validate(url)]
        Option<A>,
    ),
    /// Doc r.
    FooBar(
        /// Doc r.
        #[schemars(required)]
        Option<Refd>,
    ),
}
#[derive(JsonSchema)]
pub enum W31_1945 {
    /// # Only
    #[deprecated]
    FooBarBaz {
        #[serde(flatten)]
        #[schemars(default)]
        r#type: Option<Enum1>,
        /// # Rt
        ///
        /// body
        #[schemars(default)]
        #[schemars(skip_serializing_if = "sif")]
        trail_: D,
    },
    #[serde(rename_all = "kebab-case")]
    A {
        #[schemars(skip)]
        #[serde(skip_deserializing)]
        dbl__us: Option<u32>,
    },
    /// # Only
    Zz(
        #[schemars(inner(length(min = 1)))]
        Option<u32>,
    ),
    #[schemars(skip_deserializing)]
    #[serde(rename = "type3")]
    #[schemars(title = "Rt")]
    W2 {
        /// Doc r.
        #[serde(rename(serialize = "rs1", deserialize = "rd1"))]
        r#type: D,
        #[schemars(default)]
        #[schemars(required)]
        foo_bar_baz: Option<B>,
        #[serde(rename = "zz92")]
        #[schemars(with = "Refd")]
        #[schemars(flatten)]
        zz: InnerO,
    },
}
#[derive(JsonSchema)]
/// # Only
pub struct W32_711(
    #[schemars(extend("readOnly" = false))]
    pub Option<String>,
    /// # Rt
    ///
    /// body
    #[deprecated]
    #[schemars(extend("x-r" = [1]))]
    #[schemars(with = "Inner1")]
    pub Vec<String>,
    pub MultiT,
    /// # Rt
    ///
    /// body
    pub bool,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[schemars(title = "Rt")]
#[serde(deny_unknown_fields)]
pub enum W31_1946 {
    /// Doc r.
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[schemars(rename = "vn1")]
    #[schemars(extend("title" = "Xt"))]
    FooBarBaz,
    /// # Rt
    ///
    /// body
    #[schemars(rename_all(serialize = "camelCase", deserialize = "SCREAMING-KEBAB-CASE"))]
    FooBar {

    },
    /// # Rt
    ///
    /// body
    Ab {

    },
    /// # Only
    #[serde(untagged)]
    A(
        #[schemars(inner(length(min = 1)))]
        C,
        #[schemars(title = "Rt")]
        Refd,
        /// # Rt
        ///
        /// body
        #[validate(range(min = 1, max = 9))]
        #[garde(length(equal = 3))]
        Option<Refd>,
    ),
}
#[derive(JsonSchema)]
/// # Only
#[schemars(description = "Rd")]
#[serde(deny_unknown_fields)]
pub struct W32_712 {
    #[serde(skip_serializing_if = "sif")]
    #[validate(length(max = 8))]
    pub w2: Box<Option<B>>,
    #[schemars(skip_serializing_if = "sif")]
    pub ab: MultiT,
}
#[derive(JsonSchema)]
#[schemars(transform = tr1)]
pub struct W31_1947(
    #[schemars(with = "String")]
    pub Option<String>,
    #[schemars(transform = tr1)]
    #[schemars(skip)]
    #[serde(skip_deserializing)]
    pub C,
);
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(rename_all(serialize = "kebab-case", deserialize = "SCREAMING-KEBAB-CASE"))]
pub enum W32_713 {
    #[schemars(rename = "type1")]
    #[schemars(rename_all = "snake_case")]
    X1Y2 {
        #[serde(flatten)]
        foo_bar: Enum1,
        #[garde(required)]
        w2: Option<B>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
#[serde(deny_unknown_fields)]
pub enum W31_1948 {
    /// # Rt
    ///
    /// body
    #[schemars(rename = "type1")]
    A(
        #[schemars(with = "Refd")]
        Option<u32>,
    ),
    /// # Only
    #[serde(skip_serializing)]
    #[serde(rename = "type2")]
    #[schemars(with = "Inner1")]
    Ab(
        Option<A>,
        #[validate(range(min = 1, max = 9))]
        TT,
        #[schemars(length(min = 1))]
        Vec<A>,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(untagged)]
#[serde(rename_all_fields = "kebab-case")]
pub enum W31_1949 {
    #[serde(skip)]
    X1Y2,
    /// Doc r.
    #[deprecated]
    FooBar {

    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(description = "Rd")]
#[serde(rename_all = "kebab-case")]
pub enum W31_1950 {
    /// Doc r.
    #[serde(rename_all(serialize = "UPPERCASE"))]
    #[schemars(transform = tr1)]
    Foo_Bar {
        #[serde(default)]
        #[schemars(flatten)]
        dbl__us: UnEnum,
        /// # Only
        #[schemars(regex(pattern = "^r"))]
        #[schemars(skip_serializing_if = "sif")]
        #[validate(length(max = 8))]
        _lead: Box<A>,
        /// # Rt
        ///
        /// body
        #[schemars(extend("readOnly" = false))]
        foo_bar: Refd,
    },
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    #[schemars(rename = "vn1")]
    #[serde(rename_all(serialize = "kebab-case", deserialize = "camelCase"))]
    #[schemars(description = "Rd")]
    URLPart {
        #[schemars(with = "B")]
        #[schemars(contains("c.c"))]
        w2: Box<A>,
    },
    /// # Only
    Q {
        #[validate(range(min = 1, max = 9))]
        zz: InlineS,
        #[serde(skip_deserializing)]
        #[serde(skip_serializing)]
        #[schemars(schema_with = "sup::sw2")]
        URL_part: Inner1,
    },
    #[schemars(title = "")]
    A,
    #[serde(untagged)]
    X1Y2 {
        /// # Rt
        ///
        /// body
        #[deprecated]
        #[serde(skip_serializing_if = "sif")]
        ab: Refd,
        #[schemars(flatten)]
        URL_part: OneUnit,
        #[serde(flatten)]
        a: OneTag,
    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "PascalCase"))]
#[serde(deny_unknown_fields)]
pub enum W32_714 {
    #[deprecated]
    #[serde(rename_all(serialize = "camelCase", deserialize = "PascalCase"))]
    #[schemars(title = "Rt")]
    FooBarBaz {

    },
    #[schemars(description = "Rd")]
    URLPart(
        Inner1,
    ),
    Q,
    /// Doc r.
    FooBar {
        /// # Rt
        ///
        /// body
        URL_part: Option<u32>,
        #[schemars(extend("x-r" = [1]))]
        #[schemars(with = "Refd")]
        r#type: C,
    },
    #[schemars(rename = "type1")]
    W2(
        #[schemars(schema_with = "sw1")]
        Option<Refd>,
    ),
}
#[derive(JsonSchema)]
#[schemars(extend("x-r" = [1]))]
#[schemars(rename_all = "camelCase")]
pub struct W31_1951 {
    /// # Rt
    ///
    /// body
    #[schemars(length(min = 1))]
    pub foo_bar: Option<String>,
    #[schemars(with = "Inner1")]
    #[schemars(extend("title" = "Xt"))]
    pub ab: Option<u32>,
    #[serde(skip)]
    #[schemars(flatten)]
    pub a: UnitEnum,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(rename_all = "lowercase")]
pub struct W31_1952 {
    #[validate(range(min = 1, max = 9))]
    #[schemars(schema_with = "sw_obj")]
    #[schemars(skip_serializing_if = "sif")]
    pub _lead: MultiT,
    #[deprecated]
    #[serde(rename = "$x1")]
    #[serde(skip_serializing)]
    pub foo_bar_baz: InlineS,
    #[validate(range(min = 1, max = 9))]
    #[schemars(with = "Option<A>")]
    pub w2: InlineS,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(tag = "tg")]
#[serde(rename_all = "PascalCase")]
pub enum W31_1953 {
    #[serde(skip)]
    #[schemars(!skip)]
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(extend("x-r" = [1]))]
    Foo_Bar {
        #[schemars(extend("type" = "null"))]
        #[serde(skip_deserializing)]
        ab: Option<String>,
    },
    #[schemars(rename_all(serialize = "kebab-case", deserialize = "lowercase"))]
    FooBar {
        #[validate(length(max = 8))]
        x1_y2: Option<u32>,
        /// Doc r.
        #[schemars(default)]
        foo_bar_baz: Refd,
    },
    A {
        #[serde(skip_serializing_if = "sif")]
        #[schemars(default)]
        zz: Option<String>,
        #[serde(flatten)]
        #[schemars(schema_with = "sw1")]
        #[schemars(default)]
        URL_part: Nested1,
        #[serde(skip_serializing_if = "sif")]
        #[schemars(default)]
        #[schemars(regex(pattern = "^r"))]
        #[schemars(rename(serialize = "rs2", deserialize = "rd2"))]
        foo_bar_baz: Option<A>,
    },
    /// Doc r.
    #[schemars(rename_all = "snake_case")]
    W2 {

    },
    #[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
    Ab {
        #[deprecated]
        #[schemars(length(min = 1))]
        #[schemars(rename = "$x3")]
        #[schemars(with = "Option<A>")]
        #[serde(skip_serializing_if = "sif")]
        trail_: Option<Refd>,
        #[serde(flatten)]
        foo_bar: NullUn,
        #[serde(skip_serializing)]
        #[schemars(skip_deserializing)]
        x1_y2: B,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(untagged)]
#[schemars(rename_all_fields(serialize = "SCREAMING_SNAKE_CASE", deserialize = "camelCase"))]
pub enum W32_715 {
    /// # Only
    URLPart(
        #[schemars(transform = tr1)]
        #[schemars(length(min = 1))]
        B,
        #[schemars(schema_with = "sup::sw2")]
        u32,
        #[deprecated]
        #[validate(url)]
        Box<A>,
    ),
    /// # Only
    FooBarBaz(
        B,
        D,
    ),
}
#[derive(JsonSchema)]
#[schemars(rename_all_fields = "snake_case")]
pub enum W31_1954 {
    A(
        Option<Refd>,
        /// Doc r.
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        B,
        #[schemars(title = "Rt")]
        #[garde(inner(range(max = 5)))]
        InlineS,
    ),
    /// # Only
    #[schemars(rename = "type1")]
    Foo_Bar(
        /// # Rt
        ///
        /// body
        C,
        /// Doc r.
        #[schemars(email)]
        C,
        #[schemars(schema_with = "sup::sw2")]
        #[garde(length(equal = 3))]
        Box<Option<B>>,
    ),
    #[serde(rename_all = "lowercase")]
    #[schemars(transform = tr1)]
    FooBar {

    },
    /// # Rt
    ///
    /// body
    #[serde(untagged)]
    W2 {
        #[serde(skip)]
        #[schemars(!skip)]
        #[schemars(rename = "rn2")]
        #[schemars(default)]
        w2: InlineS,
        #[schemars(skip_serializing_if = "sif")]
        ab: bool,
        #[schemars(default)]
        URL_part: InlineS,
    },
}
#[derive(JsonSchema)]
/// # Only
#[schemars(untagged)]
pub enum W32_716 {
    Foo_Bar,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W31_1955(
    pub u32,
    #[serde(skip)]
    #[schemars(!skip)]
    #[schemars(length(min = 1))]
    pub String,
);
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_717 {
    Foo_Bar,
    W2 {
        #[schemars(title = "")]
        a: bool,
        zz: Box<Option<B>>,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all_fields(serialize = "SCREAMING_SNAKE_CASE", deserialize = "SCREAMING-KEBAB-CASE"))]
#[serde(deny_unknown_fields)]
pub enum W32_718 {
    /// # Only
    #[schemars(schema_with = "sw_obj")]
    FooBar(
        Vec<String>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(rename_all = "UPPERCASE")]
pub enum W32_719 {
    FooBarBaz {

    },
    #[schemars(rename = "type1")]
    FooBar(
        #[schemars(example = 8)]
        #[schemars(length(min = 1))]
        Box<Option<B>>,
    ),
    /// # Only
    Zz(
        #[schemars(email)]
        TT,
    ),
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
pub enum W32_720 {
    #[schemars(extend("title" = "Xt"))]
    A(
        #[schemars(length(min = 1))]
        Inner1,
    ),
}
#[derive(JsonSchema)]
#[schemars(title = "")]
#[schemars(rename_all(serialize = "UPPERCASE"))]
pub struct W31_1956 {
    #[serde(default)]
    #[schemars(skip_deserializing)]
    #[serde(flatten)]
    #[schemars(with = "Refd")]
    pub zz: NestedDeep,
}
#[derive(JsonSchema)]
/// # Only
#[serde(untagged)]
pub enum W32_721 {
    /// # Rt
    ///
    /// body
    #[schemars(rename = "type2")]
    #[serde(rename_all(serialize = "camelCase"))]
    #[schemars(transform = tr1)]
    Q {
        #[garde(ipv4)]
        #[serde(rename = "$x1")]
        a: Vec<String>,
    },
}
#[derive(JsonSchema)]
#[schemars(rename_all = "PascalCase")]
#[schemars(rename_all_fields = "PascalCase")]
pub enum W31_1957 {
    URLPart {
        #[garde(length(equal = 3))]
        #[serde(rename = "$x1")]
        #[schemars(title = "Rt")]
        trail_: Option<B>,
        #[schemars(email)]
        #[serde(skip_serializing_if = "sif")]
        _lead: Vec<A>,
    },
    W2(
        /// # Rt
        ///
        /// body
        #[schemars(with = "String")]
        Option<String>,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(skip_deserializing)]
    FooBar,
    /// # Only
    Q {
        #[schemars(skip_serializing)]
        #[schemars(flatten)]
        #[schemars(skip_serializing_if = "sif")]
        #[serde(rename = "rn2")]
        foo_bar: FF,
        #[schemars(with = "Refd")]
        #[schemars(regex(pattern = "^r"))]
        zz: Option<u32>,
        #[garde(length(equal = 3))]
        #[serde(skip_serializing)]
        x1_y2: Box<Option<B>>,
    },
    /// # Rt
    ///
    /// body
    Ab(
        #[schemars(with = "Inner1")]
        #[schemars(range(min = 2))]
        A,
    ),
}
#[derive(JsonSchema)]
#[schemars(example = 8)]
#[serde(rename_all_fields = "camelCase")]
#[schemars(deny_unknown_fields)]
pub enum W31_1958 {
    #[schemars(rename = "vn1")]
    #[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "UPPERCASE"))]
    A {
        #[schemars(transform = tr1)]
        #[schemars(with = "String")]
        w2: C,
        /// # Only
        #[deprecated]
        #[schemars(with = "Inner1")]
        dbl__us: Option<Refd>,
        trail_: D,
    },
    #[schemars(rename(serialize = "vs2", deserialize = "vd2"))]
    Foo_Bar(
        #[serde(skip_serializing)]
        #[garde(inner(range(max = 5)))]
        #[schemars(!skip_serializing)]
        #[schemars(extend("readOnly" = false))]
        Option<u32>,
        Option<B>,
        #[schemars(title = "Rt")]
        Vec<String>,
    ),
    /// # Rt
    ///
    /// body
    #[deprecated]
    #[schemars(extend("title" = "Xt"))]
    Zz(
        #[schemars(extend("readOnly" = false))]
        #[validate(range(min = 1, max = 9))]
        D,
        #[garde(inner(range(max = 5)))]
        #[schemars(with = "B")]
        Refd,
        /// Doc r.
        C,
    ),
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W31_1959 {
    #[schemars(extend("readOnly" = false))]
    #[schemars(regex(pattern = "^r"))]
    #[serde(rename = "type1")]
    pub w2: Inner1,
    #[serde(skip)]
    #[schemars(extend("x-r" = [1]))]
    pub x1_y2: MultiT,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "PascalCase")]
pub enum W31_1960 {
    #[schemars(extend("x-r" = [1]))]
    URLPart {
        #[schemars(inner(length(min = 1)))]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        zz: Option<String>,
        /// # Only
        #[schemars(description = "Rd")]
        #[schemars(skip_serializing_if = "sif")]
        a: Option<Refd>,
    },
    /// # Rt
    ///
    /// body
    #[schemars(skip_serializing)]
    Ab(
        #[schemars(email)]
        Option<B>,
    ),
    #[schemars(rename = "vn1")]
    #[schemars(rename_all(serialize = "camelCase", deserialize = "PascalCase"))]
    Q {
        /// # Rt
        ///
        /// body
        #[schemars(inner(length(min = 1)))]
        #[schemars(regex(pattern = "^r"))]
        #[serde(skip_serializing_if = "sif")]
        q: Box<Option<B>>,
    },
    /// # Rt
    ///
    /// body
    FooBar,
    /// # Rt
    ///
    /// body
    #[schemars(schema_with = "sw1")]
    FooBarBaz(
        Option<Refd>,
    ),
}
#[derive(JsonSchema)]
/// # Only
#[serde(untagged)]
pub enum W32_722 {
    #[schemars(extend("x-r" = [1]))]
    A {

    },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(rename_all(serialize = "lowercase"))]
#[schemars(rename_all_fields(serialize = "lowercase", deserialize = "camelCase"))]
pub enum W32_723 {
    Ab,
    /// # Rt
    ///
    /// body
    A(
        #[schemars(with = "Inner1")]
        Refd,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(untagged)]
#[schemars(title = "")]
pub enum W32_724 {
    /// # Only
    A(
        #[deprecated]
        #[schemars(email)]
        Vec<String>,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(deny_unknown_fields)]
pub enum W31_1961 {
    #[schemars(transform = tr1)]
    Foo_Bar {

    },
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    X1Y2(
        Option<A>,
        C,
    ),
    /// Doc r.
    #[deprecated]
    #[serde(rename = "vn2")]
    FooBarBaz(
        /// # Only
        bool,
        #[schemars(with = "Inner1")]
        #[schemars(example = 8)]
        Option<B>,
    ),
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    #[schemars(with = "B")]
    #[schemars(example = 8)]
    FooBar(
        /// Doc r.
        #[serde(skip_deserializing)]
        #[schemars(contains("c.c"))]
        #[schemars(!skip_deserializing)]
        D,
        #[schemars(regex(pattern = "^r"))]
        #[schemars(skip_deserializing)]
        #[serde(skip_serializing)]
        Inner1,
        #[schemars(inner(length(min = 1)))]
        String,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(transform = tr1)]
    Q {

    },
}
#[derive(JsonSchema)]
/// # Only
pub struct W32_725 {
    #[deprecated]
    #[schemars(regex(pattern = "^r"))]
    #[schemars(extend("type" = "null"))]
    pub _lead: A,
    pub foo_bar_baz: Box<A>,
}
#[derive(JsonSchema)]
#[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
pub struct W31_1962 {
    #[schemars(flatten)]
    pub zz: Box<Inner2>,
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    #[garde(length(equal = 3))]
    pub r#type: bool,
    /// # Rt
    ///
    /// body
    #[deprecated]
    #[schemars(inner(length(min = 1)))]
    #[serde(default)]
    pub q: B,
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct W32_726(
    pub C,
);
#[derive(JsonSchema)]
/// # Only
#[serde(untagged)]
#[schemars(title = "")]
#[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum W31_1963 {
    /// Doc r.
    #[schemars(extend("x-r" = [1]))]
    FooBar {

    },
    #[schemars(rename = "type1")]
    #[schemars(schema_with = "sw_obj")]
    URLPart(
        Option<Refd>,
    ),
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    #[schemars(title = "Rt")]
    W2(
        #[schemars(skip_deserializing)]
        #[validate(required)]
        Option<A>,
        #[schemars(schema_with = "sw_obj")]
        #[validate(url)]
        InlineS,
        #[schemars(title = "Rt")]
        String,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[schemars(transform = tr1)]
#[serde(deny_unknown_fields)]
pub enum W31_1964 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    #[serde(rename = "vn1")]
    #[schemars(transform = tr1)]
    Ab(
        /// Doc r.
        InlineS,
    ),
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
pub enum W32_727 {
    /// # Rt
    ///
    /// body
    #[schemars(rename = "vn1")]
    Foo_Bar,
    /// # Rt
    ///
    /// body
    X1Y2(
        #[schemars(schema_with = "sw1")]
        B,
    ),
}
#[derive(JsonSchema)]
pub enum W32_728 {
    #[serde(rename = "vn1")]
    URLPart(
        #[schemars(extend("x-r" = [1]))]
        #[garde(inner(range(max = 5)))]
        InlineS,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(rename_all = "UPPERCASE")]
#[serde(deny_unknown_fields)]
pub struct W32_729 {
    /// Doc r.
    #[garde(length(equal = 3))]
    #[schemars(extend("type" = "null"))]
    pub trail_: Option<Refd>,
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
pub enum W32_730 {
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(transform = tr1)]
    Q,
    /// # Only
    #[schemars(extend("title" = "Xt"))]
    FooBar {

    },
    /// # Only
    #[serde(rename_all(serialize = "kebab-case", deserialize = "SCREAMING-KEBAB-CASE"))]
    FooBarBaz {
        #[schemars(flatten)]
        #[serde(rename = "$x2")]
        a: Opt2,
        #[serde(flatten)]
        #[serde(rename = "zz93")]
        zz: Deny1,
    },
    A,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(rename_all(serialize = "camelCase", deserialize = "snake_case"))]
pub struct W31_1965 {
    #[deprecated]
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(rename = "R n1")]
    pub URL_part: String,
    #[schemars(contains("c.c"))]
    pub zz: Option<B>,
    #[serde(flatten)]
    #[schemars(rename(serialize = "rs22"))]
    pub _lead: UnEnum,
    #[schemars(skip)]
    #[serde(skip_deserializing)]
    #[validate(url)]
    pub foo_bar: u32,
    #[serde(flatten)]
    pub trail_: OneUnit,
}
#[derive(JsonSchema, Default)]
/// # Rt
///
/// body
#[serde(default)]
pub struct W32_731 {
    #[schemars(rename = "$x1")]
    #[schemars(description = "Rd")]
    pub foo_bar_baz: C,
    #[serde(default)]
    pub URL_part: MultiT,
    #[garde(length(equal = 3))]
    pub zz: D,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub enum W31_1966 {
    #[schemars(extend("x-r" = [1]))]
    Ab {
        #[validate(range(min = 1, max = 9))]
        #[schemars(with = "Option<A>")]
        #[schemars(extend("type" = "null"))]
        a: TT,
        #[serde(flatten)]
        #[serde(skip)]
        #[schemars(!skip)]
        r#type: MapS,
        #[serde(skip_serializing_if = "sif")]
        #[schemars(email)]
        trail_: Option<B>,
    },
    FooBar {
        #[deprecated]
        #[schemars(with = "Refd")]
        #[serde(default)]
        #[serde(rename(serialize = "rs1", deserialize = "rd1"))]
        foo_bar: TT,
        #[garde(length(equal = 3))]
        #[validate(range(min = 1, max = 9))]
        #[serde(rename = "R n2")]
        foo_bar_baz: C,
    },
    /// # Rt
    ///
    /// body
    #[serde(skip)]
    #[schemars(!skip)]
    #[schemars(extend("x-r" = [1]))]
    A(
        /// # Only
        #[deprecated]
        #[schemars(title = "Rt")]
        u32,
        Option<B>,
        A,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(title = "")]
    FooBarBaz,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(untagged)]
#[schemars(example = 8)]
#[serde(rename_all_fields = "PascalCase")]
pub enum W31_1967 {
    /// Doc r.
    #[serde(rename_all = "kebab-case")]
    #[schemars(with = "Inner1")]
    URLPart {
        #[schemars(extend("title" = "Xt"))]
        r#type: B,
        /// # Rt
        ///
        /// body
        #[deprecated]
        #[schemars(schema_with = "sw_obj")]
        #[schemars(default)]
        #[schemars(rename = "R n1")]
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        URL_part: D,
        #[schemars(default)]
        _lead: Inner1,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(transparent)]
pub struct W32_732(
    #[schemars(inner(length(min = 1)))]
    pub Option<B>,
);
#[derive(JsonSchema)]
/// # Only
#[schemars(tag = "tg")]
#[schemars(title = "Rt")]
#[serde(deny_unknown_fields)]
pub enum W32_733 {
    /// Doc r.
    FooBarBaz {

    },
    /// # Only
    #[serde(rename_all(serialize = "UPPERCASE"))]
    Ab {
        /// # Only
        #[schemars(extend("readOnly" = false))]
        #[validate(url)]
        r#type: Box<A>,
    },
    /// Doc r.
    #[serde(rename = "type1")]
    #[serde(untagged)]
    W2,
}
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
pub enum W31_1968 {
    #[deprecated]
    A,
    /// # Only
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    X1Y2,
    Ab {
        #[serde(default)]
        foo_bar: Option<String>,
    },
    /// # Only
    #[serde(skip)]
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    #[schemars(title = "")]
    W2 {
        /// # Rt
        ///
        /// body
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(email)]
        foo_bar: Refd,
        #[serde(flatten)]
        #[schemars(skip)]
        #[serde(skip_deserializing)]
        trail_: Deny1,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(rename_all(serialize = "lowercase"))]
pub struct W32_734 {
    #[validate(url)]
    pub foo_bar_baz: Option<Refd>,
    #[schemars(flatten)]
    pub trail_: Opt2,
    /// # Only
    #[schemars(description = "Rd")]
    pub dbl__us: u32,
    #[serde(default)]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(title = "")]
    #[schemars(with = "String")]
    pub w2: Refd,
}
#[derive(JsonSchema)]
pub struct W32_735(
    #[schemars(range(min = 2))]
    pub TT,
);
#[derive(JsonSchema)]
/// # Only
#[schemars(rename_all(serialize = "SCREAMING_SNAKE_CASE", deserialize = "camelCase"))]
pub struct W31_1969 {
    #[schemars(with = "Refd")]
    #[schemars(skip_serializing_if = "sif")]
    pub zz: Option<A>,
    #[schemars(inner(length(min = 1)))]
    #[serde(rename(serialize = "rs1", deserialize = "rd1"))]
    pub q: A,
    #[serde(flatten)]
    pub r#type: UnEnum,
    #[schemars(title = "Rt")]
    #[serde(skip_serializing)]
    #[schemars(email)]
    #[schemars(!skip_serializing)]
    pub x1_y2: u32,
    #[schemars(description = "Rd")]
    #[schemars(!skip)]
    #[serde(skip)]
    pub trail_: D,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(rename_all(serialize = "PascalCase"))]
pub enum W32_736 {
    Q,
}
#[derive(JsonSchema)]
#[schemars(rename_all(serialize = "lowercase"))]
pub struct W32_737 {
    #[serde(rename = "rn1")]
    pub x1_y2: String,
    #[deprecated]
    #[serde(skip_serializing_if = "sif")]
    #[serde(default)]
    pub ab: C,
    /// # Only
    #[validate(range(min = 1, max = 9))]
    #[serde(default)]
    #[schemars(schema_with = "sw1")]
    pub dbl__us: A,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(tag = "tg")]
#[serde(rename_all_fields(serialize = "PascalCase", deserialize = "SCREAMING-KEBAB-CASE"))]
pub enum W32_738 {
    /// Doc r.
    #[schemars(description = "Rd")]
    URLPart(
        MultiT,
    ),
    #[serde(untagged)]
    #[schemars(transform = tr1)]
    A(
        /// # Rt
        ///
        /// body
        #[schemars(schema_with = "sw_obj")]
        B,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W31_1970 {
    #[schemars(rename_all(serialize = "camelCase", deserialize = "UPPERCASE"))]
    #[schemars(title = "")]
    Ab {
        #[schemars(contains("c.c"))]
        #[schemars(description = "Rd")]
        #[schemars(default)]
        _lead: B,
    },
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(title = "Rt")]
    Foo_Bar(
        /// Doc r.
        #[garde(length(equal = 3))]
        Refd,
    ),
    /// # Only
    #[serde(skip_deserializing)]
    X1Y2,
    #[serde(skip_deserializing)]
    Q(
        C,
    ),
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    #[serde(untagged)]
    A {
        #[schemars(rename = "rn2")]
        foo_bar_baz: Refd,
        #[schemars(skip_deserializing)]
        #[serde(skip_serializing)]
        a: Inner1,
    },
}
#[derive(JsonSchema)]
/// # Only
pub struct W31_1971 {
    #[schemars(skip_deserializing)]
    #[serde(flatten)]
    pub foo_bar: UnitEnum,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(description = "Rd")]
pub struct W32_739(
    #[schemars(extend("type" = "null"))]
    pub Option<B>,
    #[garde(inner(range(max = 5)))]
    #[schemars(description = "Rd")]
    #[schemars(range(min = 2))]
    pub Option<Refd>,
    pub Vec<String>,
    /// # Rt
    ///
    /// body
    pub C,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(extend("x-r" = [1]))]
#[schemars(deny_unknown_fields)]
pub enum W31_1972 {
    FooBarBaz {
        #[serde(flatten)]
        dbl__us: OneEx,
        #[schemars(rename(serialize = "rs21"))]
        #[schemars(flatten)]
        ab: UnEnum,
        #[garde(ipv4)]
        #[serde(skip)]
        #[schemars(!skip)]
        foo_bar: D,
    },
    /// # Only
    #[schemars(schema_with = "sw_obj")]
    Q {

    },
}
#[derive(JsonSchema, Default)]
#[serde(rename_all = "snake_case")]
#[serde(deny_unknown_fields)]
#[serde(default)]
pub struct W32_740 {
    #[schemars(schema_with = "sw_obj")]
    #[schemars(rename(serialize = "rs21"))]
    pub ab: Option<String>,
    /// # Only
    #[serde(rename = "type2")]
    pub w2: Option<String>,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(deny_unknown_fields)]
pub enum W31_1973 {
    X1Y2 {

    },
    /// # Only
    #[schemars(extend("title" = "Xt"))]
    Zz(
        Option<A>,
    ),
    #[serde(untagged)]
    FooBar(
        /// # Rt
        ///
        /// body
        A,
        #[garde(inner(range(max = 5)))]
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        u32,
        /// Doc r.
        #[schemars(skip_serializing)]
        Option<B>,
    ),
}
#[derive(JsonSchema)]
pub struct W32_741(
    pub C,
);
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(deny_unknown_fields)]
pub enum W31_1974 {
    #[serde(rename = "type1")]
    Q(
        #[schemars(with = "String")]
        #[serde(skip_serializing)]
        bool,
        #[deprecated]
        #[schemars(inner(length(min = 1)))]
        D,
        /// # Rt
        ///
        /// body
        #[schemars(with = "String")]
        Box<A>,
    ),
    #[schemars(rename(serialize = "vs2", deserialize = "vd2"))]
    Foo_Bar(
        #[schemars(skip_serializing)]
        #[schemars(title = "")]
        #[garde(ipv4)]
        u32,
        /// # Only
        bool,
        /// Doc r.
        #[garde(ipv4)]
        #[schemars(with = "Refd")]
        InlineS,
    ),
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_742 {
    #[schemars(default)]
    #[schemars(contains("c.c"))]
    #[schemars(with = "String")]
    pub a: Option<Refd>,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(title = "")]
pub struct W32_743(
    pub Option<A>,
    pub Refd,
    #[deprecated]
    #[schemars(extend("type" = "null"))]
    #[schemars(email)]
    pub C,
    #[schemars(range(min = 2))]
    #[schemars(title = "")]
    pub Vec<A>,
);
#[derive(JsonSchema)]
#[schemars(extend("title" = "Xt"))]
pub enum W31_1975 {
    /// # Rt
    ///
    /// body
    #[schemars(skip)]
    #[schemars(with = "Inner1")]
    A(
        #[validate(length(max = 8))]
        #[schemars(with = "Option<A>")]
        u32,
        #[schemars(example = 8)]
        Option<A>,
    ),
    #[schemars(rename = "vn1")]
    #[schemars(transform = tr1)]
    Zz,
    /// # Only
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    Foo_Bar(
        /// # Rt
        ///
        /// body
        #[schemars(email)]
        Option<A>,
        #[schemars(skip_deserializing)]
        #[schemars(email)]
        Option<A>,
        /// Doc r.
        Box<A>,
    ),
    /// Doc r.
    #[serde(rename(serialize = "vs2", deserialize = "vd2"))]
    FooBar(
        /// Doc r.
        Option<u32>,
    ),
}
#[derive(JsonSchema)]
/// # Only
#[schemars(rename_all_fields(serialize = "kebab-case"))]
pub enum W31_1976 {
    /// Doc r.
    #[serde(rename = "type1")]
    Ab,
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    Foo_Bar,
    /// # Only
    FooBar(
        #[deprecated]
        Box<Option<B>>,
        /// # Rt
        ///
        /// body
        #[schemars(!skip_deserializing)]
        #[garde(inner(range(max = 5)))]
        #[schemars(with = "String")]
        #[serde(skip_deserializing)]
        D,
        /// # Only
        #[garde(inner(range(max = 5)))]
        #[schemars(extend("x-r" = [1]))]
        TT,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[schemars(title = "Rt")]
#[serde(rename_all(serialize = "kebab-case", deserialize = "UPPERCASE"))]
#[schemars(rename_all_fields(serialize = "camelCase"))]
pub enum W31_1977 {
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    FooBarBaz,
    /// Doc r.
    #[schemars(rename_all(serialize = "lowercase", deserialize = "camelCase"))]
    Q {

    },
    /// # Rt
    ///
    /// body
    #[serde(rename_all = "UPPERCASE")]
    #[serde(untagged)]
    URLPart {

    },
}
#[derive(JsonSchema)]
/// # Only
#[schemars(title = "")]
pub struct W32_744(
    #[deprecated]
    #[schemars(range(min = 2))]
    pub Refd,
);
#[derive(JsonSchema)]
/// Doc r.
pub struct W31_1978(
    #[deprecated]
    #[schemars(!skip_serializing)]
    #[serde(skip_serializing)]
    #[schemars(example = 8)]
    pub C,
    #[schemars(schema_with = "sw1")]
    #[schemars(description = "Rd")]
    #[schemars(email)]
    pub Inner1,
    #[schemars(regex(pattern = "^r"))]
    #[schemars(extend("title" = "Xt"))]
    #[validate(range(min = 1, max = 9))]
    pub Option<B>,
);
#[derive(JsonSchema)]
/// # Only
pub struct W32_745(
    #[deprecated]
    pub Option<String>,
);
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[schemars(description = "Rd")]
#[serde(rename_all(serialize = "snake_case"))]
#[schemars(rename_all_fields(serialize = "snake_case", deserialize = "camelCase"))]
pub enum W32_746 {
    FooBar {

    },
    URLPart {

    },
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(transparent)]
pub struct W32_747(
    #[schemars(extend("readOnly" = false))]
    pub bool,
);
#[derive(JsonSchema)]
#[schemars(extend("x-r" = [1]))]
#[schemars(deny_unknown_fields)]
pub struct W31_1979 {
    #[schemars(flatten)]
    #[schemars(!skip_serializing)]
    #[serde(skip_serializing_if = "sif")]
    #[serde(skip_serializing)]
    pub r#type: Deny1,
    #[serde(flatten)]
    pub dbl__us: Refd,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(rename_all_fields(serialize = "SCREAMING_SNAKE_CASE"))]
pub enum W31_1980 {
    #[schemars(rename = "vn1")]
    W2(
        Vec<String>,
    ),
    /// # Rt
    ///
    /// body
    #[serde(rename = "vn2")]
    Zz {
        #[serde(default)]
        URL_part: Refd,
        /// Doc r.
        #[serde(skip_serializing_if = "sif")]
        #[schemars(inner(length(min = 1)))]
        ab: Box<Option<B>>,
    },
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[schemars(schema_with = "sw_obj")]
    #[serde(untagged)]
    Ab(
        #[serde(skip)]
        #[schemars(!skip)]
        bool,
        /// Doc r.
        #[schemars(length(min = 1))]
        u32,
    ),
}
#[derive(JsonSchema)]
pub enum W32_748 {
    URLPart(
        /// Doc r.
        D,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(description = "Rd")]
pub struct W32_749(
    #[validate(url)]
    pub Option<String>,
    pub MultiT,
    #[schemars(extend("readOnly" = false))]
    pub C,
    #[garde(length(equal = 3))]
    pub MultiT,
);
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(extend("title" = "Xt"))]
pub enum W31_1981 {
    /// # Rt
    ///
    /// body
    Q,
    X1Y2 {

    },
    /// # Only
    #[schemars(rename = "vn1")]
    A,
    #[schemars(schema_with = "sw_obj")]
    #[schemars(extend("title" = "Xt"))]
    Zz {
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(with = "Option<A>")]
        #[schemars(default)]
        w2: Vec<A>,
        #[schemars(example = 8)]
        #[schemars(skip_deserializing)]
        #[serde(rename = "R n2")]
        #[schemars(default)]
        #[garde(inner(range(max = 5)))]
        ab: TT,
        #[deprecated]
        #[schemars(schema_with = "sw_obj")]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(example = 8)]
        #[schemars(default)]
        x1_y2: Option<String>,
    },
    /// # Only
    #[serde(untagged)]
    FooBar(
        #[schemars(example = 8)]
        B,
        Option<A>,
        Box<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "SCREAMING_SNAKE_CASE"))]
#[serde(deny_unknown_fields)]
pub struct W31_1982 {
    #[serde(skip_deserializing)]
    #[schemars(extend("type" = "null"))]
    #[serde(default)]
    #[serde(skip_serializing)]
    pub foo_bar: u32,
}
#[derive(JsonSchema)]
#[schemars(rename_all(serialize = "snake_case"))]
#[serde(deny_unknown_fields)]
pub enum W31_1983 {
    /// Doc r.
    Ab {
        /// # Rt
        ///
        /// body
        #[schemars(rename = "R n3")]
        r#type: C,
        zz: Vec<String>,
    },
    #[serde(skip)]
    #[schemars(!skip)]
    #[serde(untagged)]
    X1Y2(
        /// # Rt
        ///
        /// body
        Vec<A>,
        #[serde(skip_serializing)]
        Option<A>,
    ),
    #[deprecated]
    #[serde(skip_deserializing)]
    #[serde(rename = "vn2")]
    #[serde(untagged)]
    #[schemars(example = 8)]
    FooBar {
        #[serde(skip_serializing_if = "sif")]
        _lead: A,
        #[schemars(inner(length(min = 1)))]
        #[schemars(title = "")]
        #[schemars(rename = "rn1")]
        dbl__us: Option<Refd>,
    },
}
#[derive(JsonSchema, Default)]
/// # Rt
///
/// body
#[serde(default)]
pub struct W32_750 {
    #[serde(rename = "rn1")]
    #[schemars(regex(pattern = "^r"))]
    pub foo_bar_baz: Inner1,
    #[schemars(rename(serialize = "rs22"))]
    #[garde(ipv4)]
    #[serde(default)]
    #[schemars(example = 8)]
    #[schemars(with = "String")]
    pub q: Option<String>,
}
#[derive(JsonSchema)]
pub struct W32_751 {
    #[schemars(schema_with = "sw_obj")]
    #[validate(length(max = 8))]
    pub URL_part: Option<u32>,
}
#[derive(JsonSchema)]
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[schemars(extend("title" = "Xt"))]
pub enum W31_1984 {
    FooBar,
    /// # Rt
    ///
    /// body
    #[schemars(with = "Inner1")]
    #[schemars(extend("x-r" = [1]))]
    X1Y2 {
        #[serde(skip_deserializing)]
        #[schemars(!skip_deserializing)]
        #[serde(flatten)]
        zz: InnerO,
    },
    Q,
    #[serde(untagged)]
    #[schemars(example = 8)]
    A,
}
#[derive(JsonSchema)]
/// # Only
#[serde(rename_all = "kebab-case")]
pub enum W32_752 {
    /// # Only
    FooBar(
        String,
        #[schemars(schema_with = "sup::sw2")]
        D,
    ),
    URLPart,
    /// Doc r.
    FooBarBaz,
}
#[derive(JsonSchema)]
#[schemars(untagged)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[serde(rename_all_fields = "kebab-case")]
pub enum W32_753 {
    #[schemars(title = "Rt")]
    Ab(
        B,
        #[validate(range(min = 1, max = 9))]
        MultiT,
        /// Doc r.
        #[schemars(with = "B")]
        #[schemars(length(min = 1))]
        Box<A>,
    ),
    /// Doc r.
    #[schemars(transform = tr1)]
    Foo_Bar(
        #[deprecated]
        #[schemars(transform = tr1)]
        B,
        /// # Rt
        ///
        /// body
        InlineS,
        Vec<A>,
    ),
    X1Y2(
        #[deprecated]
        #[schemars(extend("x-r" = [1]))]
        C,
    ),
}
#[derive(JsonSchema)]
/// # Only
#[schemars(title = "Rt")]
#[serde(rename_all_fields(serialize = "lowercase"))]
#[serde(deny_unknown_fields)]
pub enum W32_754 {
    #[schemars(rename_all = "lowercase")]
    URLPart {

    },
    /// Doc r.
    #[serde(rename_all(serialize = "PascalCase"))]
    FooBar {
        #[serde(rename(serialize = "rs1", deserialize = "rd1"))]
        #[validate(range(min = 1, max = 9))]
        x1_y2: B,
    },
}
#[derive(JsonSchema)]
#[schemars(extend("x-r" = [1]))]
#[serde(rename_all_fields = "kebab-case")]
pub enum W31_1985 {
    /// Doc r.
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    #[schemars(description = "Rd")]
    W2 {
        #[serde(skip)]
        dbl__us: MultiT,
        #[schemars(flatten)]
        r#type: Deny1,
    },
    /// # Only
    #[schemars(transform = tr1)]
    FooBarBaz {

    },
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[schemars(rename_all(serialize = "snake_case", deserialize = "PascalCase"))]
#[serde(rename_all_fields(serialize = "snake_case"))]
#[serde(deny_unknown_fields)]
pub enum W31_1986 {
    URLPart {
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
        foo_bar: Refd,
        #[schemars(rename = "zz92")]
        #[schemars(range(min = 2))]
        zz: Refd,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(title = "Rt")]
pub struct W32_755 {
    #[garde(inner(range(max = 5)))]
    pub foo_bar_baz: TT,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(title = "Rt")]
pub struct W32_756(
    #[schemars(extend("type" = "null"))]
    pub Option<Refd>,
);
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[serde(rename_all_fields(serialize = "UPPERCASE"))]
pub enum W31_1987 {
    /// # Rt
    ///
    /// body
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    Foo_Bar {

    },
    /// # Only
    #[serde(rename = "type1")]
    FooBar {
        /// # Only
        #[validate(range(min = 1, max = 9))]
        a: String,
    },
    /// # Rt
    ///
    /// body
    URLPart(
        #[schemars(extend("x-r" = [1]))]
        A,
        #[validate(url)]
        String,
    ),
    /// # Only
    #[serde(skip_deserializing)]
    #[schemars(skip)]
    #[schemars(rename = "vn3")]
    #[schemars(rename_all(serialize = "kebab-case", deserialize = "SCREAMING_SNAKE_CASE"))]
    #[schemars(schema_with = "sw1")]
    #[serde(untagged)]
    Q {
        #[serde(flatten)]
        #[schemars(default)]
        trail_: Inner1,
        #[serde(skip_serializing_if = "sif")]
        #[serde(default)]
        #[serde(rename = "$x2")]
        #[schemars(title = "")]
        x1_y2: Vec<String>,
    },
}
#[derive(JsonSchema)]
pub struct W31_1988(
    /// # Only
    #[garde(inner(range(max = 5)))]
    pub Refd,
    #[schemars(range(min = 2))]
    #[schemars(skip_deserializing)]
    pub Option<u32>,
    #[schemars(regex(pattern = "^r"))]
    #[schemars(with = "Option<A>")]
    pub Option<u32>,
    pub Vec<String>,
);
#[derive(JsonSchema)]
/// # Only
pub struct W32_757 {
    #[serde(skip_serializing_if = "sif")]
    pub x1_y2: Option<A>,
    #[deprecated]
    #[validate(range(min = 1, max = 9))]
    pub trail_: B,
    #[schemars(skip_serializing_if = "sif")]
    #[serde(flatten)]
    pub foo_bar: Inner1,
    #[schemars(example = 8)]
    pub URL_part: TT,
    /// Doc r.
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(with = "Option<A>")]
    pub foo_bar_baz: MultiT,
}
#[derive(JsonSchema)]
#[schemars(untagged)]
#[schemars(title = "")]
#[serde(rename_all_fields = "lowercase")]
#[schemars(deny_unknown_fields)]
pub enum W31_1989 {
    /// Doc r.
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[schemars(extend("title" = "Xt"))]
    X1Y2 {
        #[schemars(default)]
        #[serde(skip_serializing_if = "sif")]
        URL_part: Option<u32>,
        #[validate(length(max = 8))]
        dbl__us: B,
        /// # Only
        #[schemars(default)]
        #[schemars(extend("readOnly" = false))]
        #[schemars(with = "String")]
        x1_y2: D,
    },
    #[deprecated]
    FooBarBaz,
}
#[derive(JsonSchema)]
pub struct W32_758(
    #[schemars(with = "Inner1")]
    pub u32,
    #[schemars(email)]
    pub D,
);
#[derive(JsonSchema, Default)]
/// # Only
#[serde(default)]
pub struct W32_759 {
    #[deprecated]
    #[serde(skip_serializing_if = "sif")]
    pub foo_bar_baz: u32,
    #[schemars(rename = "type1")]
    #[schemars(skip_serializing_if = "sif")]
    #[serde(flatten)]
    pub r#type: Opt2,
    #[deprecated]
    #[validate(length(max = 8))]
    pub foo_bar: Option<Refd>,
}
#[derive(JsonSchema)]
pub struct W31_1990(
    #[schemars(contains("c.c"))]
    pub Option<A>,
    #[deprecated]
    #[serde(skip)]
    #[schemars(example = 8)]
    pub Option<String>,
    #[schemars(with = "Option<A>")]
    pub Box<Option<B>>,
);
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_1991 {
    /// Doc r.
    #[schemars(description = "Rd")]
    Q {
        /// # Rt
        ///
        /// body
        #[schemars(title = "Rt")]
        #[schemars(rename = "$x1")]
        #[serde(skip_serializing)]
        #[schemars(contains("c.c"))]
        a: Vec<String>,
        /// Doc r.
        #[schemars(rename = "rn2")]
        _lead: Option<B>,
        #[schemars(regex(pattern = "^r"))]
        w2: Vec<String>,
    },
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(rename_all = "snake_case")]
#[schemars(rename_all_fields(serialize = "SCREAMING-KEBAB-CASE"))]
pub enum W32_760 {
    #[deprecated]
    #[serde(rename_all(serialize = "PascalCase", deserialize = "lowercase"))]
    #[serde(untagged)]
    #[schemars(extend("x-r" = [1]))]
    Q {
        foo_bar: Option<u32>,
        /// # Only
        #[schemars(email)]
        #[serde(skip_serializing_if = "sif")]
        #[serde(rename = "type1")]
        dbl__us: D,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(rename_all = "camelCase")]
#[schemars(rename_all_fields = "kebab-case")]
pub enum W31_1992 {
    Foo_Bar,
    /// # Rt
    ///
    /// body
    #[deprecated]
    FooBar(
        #[validate(length(max = 8))]
        Option<String>,
        #[schemars(skip_deserializing)]
        Box<A>,
        #[validate(length(max = 8))]
        #[schemars(extend("title" = "Xt"))]
        Option<Refd>,
    ),
    /// Doc r.
    #[schemars(schema_with = "sw_obj")]
    URLPart(
        Box<A>,
    ),
    #[schemars(schema_with = "sw1")]
    X1Y2(
        #[deprecated]
        #[schemars(email)]
        #[validate(range(min = 1, max = 9))]
        InlineS,
    ),
    /// Doc r.
    W2 {

    },
}
#[derive(JsonSchema)]
/// # Only
#[schemars(extend("x-r" = [1]))]
#[schemars(rename_all = "snake_case")]
#[serde(deny_unknown_fields)]
pub struct W31_1993 {
    #[schemars(skip_serializing_if = "sif")]
    #[schemars(rename = "$x1")]
    pub URL_part: InlineS,
    #[schemars(extend("title" = "Xt"))]
    pub q: D,
    #[schemars(!skip_deserializing)]
    #[serde(skip_deserializing)]
    pub dbl__us: Box<A>,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "PascalCase"))]
pub struct W31_1994 {
    #[serde(default)]
    #[serde(skip)]
    pub ab: Option<String>,
    /// # Only
    #[schemars(extend("type" = "null"))]
    pub a: Option<Refd>,
    #[validate(range(min = 1, max = 9))]
    #[serde(default)]
    #[serde(rename = "R n1")]
    pub dbl__us: C,
}
#[derive(JsonSchema)]
#[schemars(title = "")]
pub struct W31_1995(
    /// Doc r.
    #[schemars(!skip_deserializing)]
    #[serde(skip_deserializing)]
    #[schemars(transform = tr1)]
    pub Option<u32>,
    #[validate(url)]
    #[serde(skip_deserializing)]
    pub Option<A>,
    #[schemars(title = "")]
    pub Option<String>,
    #[schemars(with = "String")]
    pub InlineS,
);
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
#[schemars(deny_unknown_fields)]
pub enum W31_1996 {
    /// # Only
    #[serde(rename = "type2")]
    #[schemars(extend("x-r" = [1]))]
    Foo_Bar {
        #[serde(flatten)]
        #[serde(rename = "$x1")]
        dbl__us: MixEnum,
        #[serde(skip_serializing_if = "sif")]
        zz: D,
    },
    #[serde(rename = "vn3")]
    A {
        /// Doc r.
        #[serde(skip_deserializing)]
        #[serde(skip_serializing_if = "sif")]
        #[schemars(skip)]
        #[schemars(contains("c.c"))]
        q: D,
    },
    /// # Rt
    ///
    /// body
    Q,
    /// # Only
    Ab {
        /// Doc r.
        x1_y2: C,
    },
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(deny_unknown_fields)]
pub enum W31_1997 {
    /// # Only
    Zz {

    },
    #[serde(rename = "vn1")]
    #[schemars(with = "Inner1")]
    #[schemars(example = 8)]
    Ab(
        #[schemars(example = 8)]
        Box<A>,
    ),
    /// # Only
    #[serde(rename_all = "PascalCase")]
    FooBar {
        foo_bar_baz: Box<Option<B>>,
        /// Doc r.
        #[deprecated]
        #[schemars(rename = "$x2")]
        trail_: String,
        #[deprecated]
        #[serde(rename(serialize = "rs23"))]
        #[serde(default)]
        x1_y2: String,
    },
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
    #[serde(untagged)]
    A {
        #[schemars(skip_serializing_if = "sif")]
        zz: Option<u32>,
    },
}
#[derive(JsonSchema)]
pub struct W32_761 {
    #[serde(flatten)]
    pub zz: Box<Inner2>,
    #[serde(default)]
    pub foo_bar_baz: C,
    #[schemars(skip_serializing_if = "sif")]
    #[serde(flatten)]
    #[schemars(schema_with = "sw1")]
    pub q: Enum1,
    #[schemars(email)]
    #[schemars(with = "Inner1")]
    pub foo_bar: Option<String>,
    #[garde(ipv4)]
    #[schemars(description = "Rd")]
    pub _lead: u32,
}
#[derive(JsonSchema, Default)]
/// # Rt
///
/// body
#[serde(default)]
pub struct W31_1998 {
    #[serde(default)]
    #[serde(rename(serialize = "rs1", deserialize = "rd1"))]
    #[serde(skip_serializing)]
    pub _lead: Option<A>,
    #[schemars(with = "Option<A>")]
    pub dbl__us: Box<Option<B>>,
}
#[derive(JsonSchema)]
#[schemars(untagged)]
#[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE"))]
pub enum W31_1999 {
    #[schemars(description = "Rd")]
    URLPart(
        #[schemars(title = "Rt")]
        A,
    ),
    #[schemars(extend("x-r" = [1]))]
    X1Y2,
    #[serde(skip)]
    #[schemars(!skip)]
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(with = "B")]
    FooBarBaz(
        #[schemars(title = "")]
        Inner1,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W31_2000 {
    /// Doc r.
    #[deprecated]
    #[schemars(rename_all = "snake_case")]
    #[schemars(extend("x-r" = [1]))]
    URLPart {

    },
    /// # Rt
    ///
    /// body
    FooBar {
        /// Doc r.
        dbl__us: InlineS,
        #[schemars(schema_with = "sw1")]
        foo_bar: Option<String>,
        #[schemars(flatten)]
        #[serde(rename = "rn1")]
        #[schemars(skip_serializing)]
        #[serde(default)]
        x1_y2: FF,
    },
}
#[derive(JsonSchema)]
#[schemars(extend("title" = "Xt"))]
pub enum W32_762 {
    Q,
    /// Doc r.
    #[schemars(example = 8)]
    W2(
        #[deprecated]
        #[schemars(description = "Rd")]
        Box<A>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(description = "Rd")]
#[schemars(rename_all_fields(serialize = "UPPERCASE", deserialize = "PascalCase"))]
#[schemars(deny_unknown_fields)]
pub enum W31_2001 {
    /// # Rt
    ///
    /// body
    #[serde(rename = "vn1")]
    Foo_Bar,
    #[serde(rename = "vn2")]
    Ab(
        /// Doc r.
        #[schemars(length(min = 1))]
        u32,
        #[garde(ipv4)]
        Option<A>,
        /// Doc r.
        #[serde(skip_deserializing)]
        #[schemars(email)]
        #[schemars(skip)]
        MultiT,
    ),
    /// Doc r.
    #[schemars(title = "")]
    W2,
    #[schemars(rename(serialize = "vs3", deserialize = "vd3"))]
    URLPart(
        #[schemars(extend("x-r" = [1]))]
        Box<A>,
    ),
    /// # Rt
    ///
    /// body
    FooBarBaz {
        #[serde(flatten)]
        #[schemars(skip_serializing_if = "sif")]
        w2: Option<Enum1>,
    },
}
#[derive(JsonSchema)]
#[schemars(extend("x-r" = [1]))]
pub struct W32_763 {
    #[serde(flatten)]
    pub URL_part: MixEnum,
    #[serde(flatten)]
    pub ab: MixEnum,
    pub a: Option<B>,
    #[serde(rename = "type1")]
    pub w2: C,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(example = 8)]
pub struct W32_764(
    #[validate(range(min = 1, max = 9))]
    #[schemars(extend("type" = "null"))]
    #[schemars(schema_with = "sup::sw2")]
    pub Option<u32>,
);
#[derive(JsonSchema)]
#[schemars(rename_all(serialize = "camelCase", deserialize = "SCREAMING_SNAKE_CASE"))]
pub struct W32_765 {
    #[serde(flatten)]
    #[schemars(with = "Option<A>")]
    pub w2: Option<Enum1>,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct W32_766 {
    #[serde(rename = "$x1")]
    pub ab: Vec<String>,
    #[schemars(skip_serializing_if = "sif")]
    pub x1_y2: Option<A>,
    #[serde(skip_serializing_if = "sif")]
    #[serde(default)]
    pub w2: u32,
    #[garde(ipv4)]
    #[schemars(example = 8)]
    pub a: u32,
    #[serde(flatten)]
    pub dbl__us: Enum2,
}
#[derive(JsonSchema, Default)]
#[serde(rename_all = "lowercase")]
#[serde(default)]
pub struct W32_767 {
    #[schemars(email)]
    pub trail_: Option<B>,
    #[serde(rename = "$x1")]
    #[validate(url)]
    #[schemars(title = "Rt")]
    pub foo_bar: Box<Option<B>>,
}
#[derive(JsonSchema, Default)]
#[schemars(deny_unknown_fields)]
#[serde(default)]
pub struct W32_768 {
    #[schemars(with = "Refd")]
    #[schemars(rename = "rn1")]
    #[serde(default)]
    #[schemars(description = "Rd")]
    pub foo_bar_baz: InlineS,
}
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[schemars(rename_all_fields(serialize = "snake_case"))]
pub enum W32_769 {
    /// # Only
    X1Y2,
    Zz(
        A,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(title = "Rt")]
    FooBarBaz(
        #[validate(length(max = 8))]
        Refd,
    ),
}
#[derive(JsonSchema, Default)]
/// Doc r.
#[schemars(description = "Rd")]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[serde(default)]
pub struct W32_770 {
    /// # Only
    #[validate(range(min = 1, max = 9))]
    #[schemars(with = "Option<A>")]
    pub dbl__us: Option<String>,
    #[serde(flatten)]
    pub URL_part: OneTag,
    #[schemars(with = "Refd")]
    pub w2: Box<Option<B>>,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W31_2002 {
    #[schemars(skip_serializing_if = "sif")]
    #[serde(default)]
    pub r#type: D,
    #[schemars(with = "Refd")]
    #[serde(flatten)]
    pub x1_y2: Deny1,
    #[serde(skip_deserializing)]
    #[schemars(default)]
    #[schemars(!skip_deserializing)]
    pub a: u32,
    /// Doc r.
    #[schemars(with = "Refd")]
    #[serde(rename = "$x1")]
    #[schemars(skip_serializing_if = "sif")]
    pub ab: Option<B>,
    #[schemars(with = "Refd")]
    #[schemars(default)]
    #[schemars(email)]
    pub w2: bool,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(extend("title" = "Xt"))]
#[serde(deny_unknown_fields)]
pub enum W31_2003 {
    URLPart(
        #[schemars(transform = tr1)]
        Refd,
        #[schemars(extend("type" = "null"))]
        u32,
        Option<B>,
    ),
    #[serde(rename = "type1")]
    Foo_Bar(
        /// # Rt
        ///
        /// body
        Vec<String>,
    ),
    #[serde(rename = "vn2")]
    #[schemars(with = "B")]
    W2(
        /// Doc r.
        #[schemars(extend("x-r" = [1]))]
        #[serde(skip_serializing)]
        TT,
        Option<A>,
        #[schemars(title = "Rt")]
        Vec<A>,
    ),
    /// Doc r.
    Ab(
        /// # Only
        #[schemars(inner(length(min = 1)))]
        TT,
        #[deprecated]
        #[garde(inner(range(max = 5)))]
        Option<B>,
        Box<A>,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(untagged)]
#[schemars(extend("x-r" = [1]))]
#[serde(rename_all = "kebab-case")]
#[serde(rename_all_fields(serialize = "SCREAMING_SNAKE_CASE", deserialize = "lowercase"))]
pub enum W32_771 {
    #[schemars(rename_all = "kebab-case")]
    A {
        #[serde(rename = "R n1")]
        #[schemars(extend("title" = "Xt"))]
        trail_: Refd,
    },
    Zz {
        #[schemars(contains("c.c"))]
        #[schemars(default)]
        #[serde(rename(serialize = "rs22"))]
        foo_bar: Option<u32>,
        #[deprecated]
        #[serde(default)]
        #[serde(rename(serialize = "rs23"))]
        foo_bar_baz: u32,
        #[serde(flatten)]
        a: InnerO,
    },
    #[serde(rename = "vn4")]
    #[schemars(example = 8)]
    Q {
        #[schemars(with = "Refd")]
        #[serde(flatten)]
        #[schemars(skip_serializing_if = "sif")]
        _lead: Opt2,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(with = "Inner1")]
        #[garde(ipv4)]
        #[schemars(regex(pattern = "^r"))]
        dbl__us: C,
        URL_part: A,
    },
    /// # Only
    #[schemars(rename = "vn5")]
    FooBarBaz(
        #[schemars(extend("title" = "Xt"))]
        Option<Refd>,
        u32,
        Inner1,
    ),
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(tag = "tg")]
#[schemars(rename_all(serialize = "SCREAMING-KEBAB-CASE"))]
pub enum W31_2004 {
    #[schemars(rename(serialize = "vs1", deserialize = "vd1"))]
    #[schemars(extend("x-r" = [1]))]
    Ab,
    /// Doc r.
    #[schemars(rename = "vn2")]
    #[schemars(rename_all = "kebab-case")]
    URLPart {
        #[validate(length(max = 8))]
        #[schemars(default)]
        #[schemars(schema_with = "sup::sw2")]
        ab: Refd,
        #[schemars(skip_deserializing)]
        #[serde(skip_serializing)]
        foo_bar_baz: Box<Option<B>>,
        #[serde(flatten)]
        q: Refd,
    },
    /// # Rt
    ///
    /// body
    #[schemars(rename = "type3")]
    #[schemars(rename_all(serialize = "lowercase"))]
    #[serde(untagged)]
    #[schemars(example = 8)]
    Foo_Bar {

    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(transparent)]
pub struct W32_772(
    pub Option<Refd>,
);
#[derive(JsonSchema)]
/// # Only
#[schemars(tag = "tg")]
#[serde(rename_all(serialize = "camelCase", deserialize = "SCREAMING-KEBAB-CASE"))]
#[serde(rename_all_fields = "SCREAMING-KEBAB-CASE")]
pub enum W31_2005 {
    #[serde(rename = "type1")]
    W2,
    /// # Rt
    ///
    /// body
    #[schemars(rename = "vn2")]
    #[schemars(description = "Rd")]
    FooBar(
        #[schemars(with = "B")]
        InlineS,
    ),
    #[deprecated]
    #[schemars(rename(serialize = "vs4", deserialize = "vd4"))]
    #[serde(rename_all = "snake_case")]
    Q {
        /// # Rt
        ///
        /// body
        #[schemars(rename = "R n3")]
        #[validate(required)]
        dbl__us: Option<Refd>,
    },
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[schemars(schema_with = "sw_obj")]
    Zz {
        #[schemars(default)]
        #[serde(flatten)]
        #[schemars(skip_deserializing)]
        #[serde(skip_serializing_if = "sif")]
        a: Refd,
        /// # Only
        #[schemars(range(min = 2))]
        #[schemars(extend("x-r" = [1]))]
        #[serde(skip_serializing)]
        zz: Refd,
        /// # Only
        #[deprecated]
        #[schemars(skip_serializing_if = "sif")]
        x1_y2: Refd,
    },
    #[schemars(rename(serialize = "vs5", deserialize = "vd5"))]
    X1Y2(
        #[deprecated]
        #[schemars(title = "")]
        Option<Refd>,
    ),
}
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[serde(rename_all_fields = "lowercase")]
pub enum W31_2006 {
    /// # Rt
    ///
    /// body
    #[serde(rename = "vn3")]
    #[serde(rename_all = "SCREAMING-KEBAB-CASE")]
    #[schemars(title = "Rt")]
    FooBarBaz {
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(length(min = 1))]
        #[serde(rename = "rn1")]
        #[schemars(with = "Refd")]
        #[schemars(default)]
        #[schemars(regex(pattern = "^r"))]
        URL_part: A,
        #[schemars(rename = "rn2")]
        dbl__us: Refd,
        #[serde(default)]
        x1_y2: Box<Option<B>>,
    },
    /// Doc r.
    #[serde(rename = "type5")]
    #[schemars(transform = tr1)]
    Foo_Bar {
        #[schemars(!skip_deserializing)]
        #[schemars(skip_serializing_if = "sif")]
        #[serde(flatten)]
        #[serde(skip_deserializing)]
        trail_: TT,
        #[schemars(rename = "rn4")]
        #[serde(skip_serializing_if = "sif")]
        #[serde(default)]
        #[serde(flatten)]
        foo_bar_baz: TT,
        /// # Only
        #[schemars(skip)]
        q: Refd,
    },
    W2(
        #[schemars(with = "Option<A>")]
        #[schemars(email)]
        Option<String>,
    ),
    /// # Rt
    ///
    /// body
    #[serde(rename_all(serialize = "camelCase", deserialize = "lowercase"))]
    #[serde(untagged)]
    #[schemars(title = "Rt")]
    Ab {

    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
pub struct W32_773(
    #[schemars(schema_with = "sw_obj")]
    #[garde(inner(range(max = 5)))]
    pub A,
);
#[derive(JsonSchema)]
/// Doc r.
pub struct W31_2007 {
    #[serde(skip_serializing_if = "sif")]
    #[schemars(skip_deserializing)]
    #[garde(inner(range(max = 5)))]
    pub q: Refd,
    #[schemars(skip)]
    #[schemars(title = "Rt")]
    pub foo_bar_baz: Refd,
    #[serde(skip_serializing_if = "sif")]
    #[serde(flatten)]
    pub zz: NullUn,
    /// # Only
    #[schemars(extend("type" = "null"))]
    #[serde(rename = "R n1")]
    #[schemars(length(min = 1))]
    pub dbl__us: Option<u32>,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[serde(rename_all_fields(serialize = "PascalCase"))]
pub enum W32_774 {
    #[deprecated]
    FooBarBaz(
        Refd,
    ),
    /// Doc r.
    #[schemars(schema_with = "sw1")]
    URLPart {
        #[schemars(flatten)]
        dbl__us: NullUn,
        /// # Rt
        ///
        /// body
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(description = "Rd")]
        URL_part: A,
        /// # Only
        #[serde(skip_serializing_if = "sif")]
        r#type: Box<A>,
    },
}
#[derive(JsonSchema)]
pub struct W31_2008(
    #[serde(skip_serializing)]
    #[schemars(skip_deserializing)]
    #[schemars(extend("title" = "Xt"))]
    pub Vec<String>,
    /// Doc r.
    pub Option<String>,
    #[deprecated]
    pub Option<B>,
);
#[derive(JsonSchema)]
#[serde(untagged)]
#[serde(rename_all(serialize = "UPPERCASE"))]
pub enum W32_775 {
    Ab(
        #[deprecated]
        Refd,
        #[deprecated]
        #[validate(range(min = 1, max = 9))]
        Box<Option<B>>,
        #[schemars(with = "Inner1")]
        #[schemars(extend("title" = "Xt"))]
        Box<A>,
    ),
    /// Doc r.
    Q {
        foo_bar_baz: Inner1,
        #[deprecated]
        #[serde(default)]
        #[garde(length(equal = 3))]
        #[schemars(extend("title" = "Xt"))]
        zz: u32,
    },
}
#[derive(JsonSchema)]
#[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "UPPERCASE"))]
pub struct W32_776 {
    #[schemars(email)]
    #[validate(required)]
    pub dbl__us: Option<String>,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(transform = tr1)]
#[serde(deny_unknown_fields)]
pub enum W32_777 {
    /// Doc r.
    #[serde(rename = "vn1")]
    URLPart,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(extend("title" = "Xt"))]
pub enum W31_2009 {
    Ab,
    #[schemars(rename_all(serialize = "camelCase"))]
    #[schemars(transform = tr1)]
    Zz {
        #[serde(flatten)]
        #[serde(default)]
        #[serde(rename(serialize = "rs21"))]
        trail_: TagEnum,
    },
    #[schemars(skip)]
    FooBarBaz(
        /// # Only
        #[garde(inner(range(max = 5)))]
        InlineS,
    ),
    /// # Only
    #[deprecated]
    Foo_Bar,
}
#[derive(JsonSchema)]
/// Doc r.
pub struct W32_778(
    #[schemars(with = "B")]
    pub Vec<A>,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(deny_unknown_fields)]
pub struct W31_2010 {
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    #[serde(default)]
    #[schemars(with = "Option<A>")]
    #[serde(skip_serializing_if = "sif")]
    pub x1_y2: Box<A>,
    #[serde(rename = "$x1")]
    #[serde(flatten)]
    pub r#type: SomeMix,
    #[schemars(schema_with = "sw1")]
    #[schemars(flatten)]
    pub foo_bar: InnerO,
    #[serde(flatten)]
    pub zz: SomeMix,
    #[serde(rename(serialize = "rs2", deserialize = "rd2"))]
    #[schemars(transform = tr1)]
    pub dbl__us: Option<u32>,
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(extend("title" = "Xt"))]
#[serde(rename_all_fields = "camelCase")]
pub enum W31_2011 {
    #[schemars(skip)]
    Q(
        C,
        #[schemars(transform = tr1)]
        #[validate(url)]
        Box<Option<B>>,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(with = "B")]
    X1Y2(
        #[garde(length(equal = 3))]
        Box<Option<B>>,
        /// # Rt
        ///
        /// body
        Option<Refd>,
    ),
    #[serde(skip_deserializing)]
    #[schemars(!skip_deserializing)]
    Ab {
        /// # Rt
        ///
        /// body
        #[schemars(with = "Refd")]
        ab: A,
        #[garde(inner(range(max = 5)))]
        #[schemars(example = 8)]
        #[schemars(rename = "$x1")]
        w2: InlineS,
        #[schemars(skip)]
        #[garde(ipv4)]
        URL_part: Option<A>,
    },
    FooBar {
        #[serde(default)]
        _lead: Inner1,
        #[serde(default)]
        #[validate(url)]
        #[schemars(description = "Rd")]
        trail_: String,
    },
    /// # Rt
    ///
    /// body
    #[schemars(title = "")]
    W2,
}
#[derive(JsonSchema)]
#[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct W32_779 {
    /// # Only
    pub URL_part: Option<B>,
    #[schemars(extend("title" = "Xt"))]
    #[serde(skip_serializing_if = "sif")]
    #[schemars(default)]
    pub a: InlineS,
}
#[derive(JsonSchema)]
pub struct W31_2012 {
    #[schemars(with = "Option<A>")]
    #[serde(skip_serializing_if = "sif")]
    #[serde(skip_deserializing)]
    pub foo_bar: Refd,
    #[schemars(extend("title" = "Xt"))]
    #[schemars(with = "Option<A>")]
    pub URL_part: bool,
    /// Doc r.
    #[schemars(regex(pattern = "^r"))]
    #[schemars(skip_serializing_if = "sif")]
    pub _lead: C,
}
#[derive(JsonSchema)]
/// # Only
#[schemars(untagged)]
#[schemars(extend("title" = "Xt"))]
pub enum W31_2013 {
    Zz(
        B,
    ),
    /// Doc r.
    #[schemars(rename = "type1")]
    Ab(
        #[validate(range(min = 1, max = 9))]
        #[schemars(with = "Option<A>")]
        InlineS,
        #[schemars(!skip_serializing)]
        #[schemars(range(min = 2))]
        #[serde(skip_serializing)]
        Box<A>,
    ),
    #[deprecated]
    #[schemars(example = 8)]
    A(
        /// # Rt
        ///
        /// body
        #[garde(ipv4)]
        Option<u32>,
        /// # Rt
        ///
        /// body
        #[schemars(extend("readOnly" = false))]
        D,
        #[garde(ipv4)]
        Box<A>,
    ),
    /// # Only
    #[schemars(example = 8)]
    Q,
    /// Doc r.
    W2(
        /// Doc r.
        Option<B>,
        Box<Option<B>>,
        #[schemars(range(min = 2))]
        Refd,
    ),
}
#[derive(JsonSchema)]
pub struct W31_2014 {
    #[serde(default)]
    #[schemars(example = 8)]
    #[schemars(range(min = 2))]
    #[schemars(schema_with = "sw_obj")]
    pub q: A,
    /// # Only
    #[schemars(schema_with = "sw_obj")]
    #[schemars(length(min = 1))]
    #[serde(rename(serialize = "rs21"))]
    pub ab: String,
    #[schemars(skip_deserializing)]
    #[serde(flatten)]
    pub a: TagEnum,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(title = "")]
#[serde(deny_unknown_fields)]
pub enum W31_2015 {
    FooBarBaz,
    /// # Rt
    ///
    /// body
    #[schemars(with = "B")]
    #[schemars(description = "Rd")]
    X1Y2(
        /// # Only
        #[garde(length(equal = 3))]
        TT,
        #[deprecated]
        #[validate(length(max = 8))]
        Option<u32>,
        #[serde(skip_serializing)]
        #[schemars(extend("type" = "null"))]
        #[schemars(!skip_serializing)]
        Box<A>,
    ),
}
#[derive(JsonSchema, Default)]
#[serde(default)]
pub struct W32_780 {
    #[serde(flatten)]
    #[serde(default)]
    #[serde(rename = "rn1")]
    pub URL_part: Opt2,
}
#[derive(JsonSchema)]
/// Doc r.
pub enum W32_781 {
    /// # Only
    #[schemars(description = "Rd")]
    URLPart,
    /// # Only
    #[serde(rename = "type1")]
    #[schemars(rename_all(serialize = "snake_case", deserialize = "SCREAMING_SNAKE_CASE"))]
    Ab {
        /// # Only
        #[schemars(with = "Inner1")]
        a: Refd,
    },
    #[schemars(rename(serialize = "vs2", deserialize = "vd2"))]
    #[schemars(rename_all(serialize = "camelCase", deserialize = "SCREAMING-KEBAB-CASE"))]
    #[schemars(description = "Rd")]
    W2 {

    },
    #[schemars(example = 8)]
    FooBar(
        /// # Rt
        ///
        /// body
        C,
    ),
    /// Doc r.
    Foo_Bar(
        #[validate(url)]
        Box<Option<B>>,
    ),
}
#[derive(JsonSchema)]
/// # Only
pub struct W32_782 {
    #[schemars(default)]
    #[serde(flatten)]
    pub foo_bar: NoMix,
    /// Doc r.
    #[schemars(extend("title" = "Xt"))]
    #[schemars(schema_with = "sup::sw2")]
    pub q: MultiT,
    #[schemars(flatten)]
    #[schemars(rename(serialize = "rs1", deserialize = "rd1"))]
    pub a: SomeMix,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(tag = "tg")]
#[schemars(content = "ct")]
#[schemars(title = "")]
#[schemars(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum W31_2016 {
    #[deprecated]
    URLPart(
        Vec<A>,
        /// Doc r.
        #[schemars(schema_with = "sw_obj")]
        #[schemars(transform = tr1)]
        Box<A>,
        #[schemars(email)]
        C,
    ),
    #[deprecated]
    Foo_Bar(
        Vec<String>,
        #[schemars(skip_deserializing)]
        #[schemars(inner(length(min = 1)))]
        InlineS,
    ),
    #[schemars(schema_with = "sw1")]
    Q {

    },
}
#[derive(JsonSchema)]
/// Doc r.
#[serde(untagged)]
#[schemars(transform = tr1)]
#[schemars(rename_all_fields = "camelCase")]
pub enum W31_2017 {
    #[deprecated]
    W2,
    FooBarBaz(
        Box<Option<B>>,
    ),
    /// # Rt
    ///
    /// body
    #[schemars(description = "Rd")]
    URLPart(
        /// Doc r.
        #[deprecated]
        #[schemars(with = "B")]
        #[serde(skip_serializing)]
        #[schemars(!skip_serializing)]
        Refd,
        #[deprecated]
        #[schemars(with = "Inner1")]
        #[schemars(length(min = 1))]
        Box<Option<B>>,
        /// # Rt
        ///
        /// body
        TT,
    ),
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(untagged)]
pub enum W31_2018 {
    /// Doc r.
    #[serde(rename = "type1")]
    W2 {
        /// # Rt
        ///
        /// body
        #[schemars(title = "Rt")]
        #[schemars(!skip_serializing)]
        #[serde(skip_serializing)]
        trail_: A,
        #[serde(flatten)]
        zz: SomeMix,
    },
    #[schemars(rename = "type2")]
    #[schemars(title = "Rt")]
    Ab {

    },
    /// Doc r.
    #[schemars(with = "B")]
    A(
        #[schemars(regex(pattern = "^r"))]
        #[schemars(email)]
        C,
    ),
    #[schemars(title = "Rt")]
    Q,
}
#[derive(JsonSchema)]
/// Doc r.
#[schemars(extend("title" = "Xt"))]
pub struct W32_783(
    #[garde(required)]
    #[schemars(length(min = 1))]
    pub Option<u32>,
    #[deprecated]
    #[schemars(range(min = 2))]
    pub bool,
);
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(tag = "tg")]
#[schemars(deny_unknown_fields)]
pub enum W31_2019 {
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    URLPart {
        /// Doc r.
        #[schemars(!skip)]
        #[schemars(example = 8)]
        #[serde(skip)]
        a: Inner1,
    },
    #[schemars(rename = "vn1")]
    Foo_Bar(
        Refd,
    ),
    #[schemars(rename = "vn2")]
    #[schemars(extend("title" = "Xt"))]
    X1Y2,
    Q {

    },
}
#[derive(JsonSchema)]
pub enum W32_784 {
    /// # Rt
    ///
    /// body
    #[deprecated]
    W2,
    #[serde(rename = "type1")]
    #[schemars(extend("title" = "Xt"))]
    Ab(
        /// Doc r.
        #[validate(length(max = 8))]
        D,
        #[deprecated]
        #[schemars(title = "")]
        InlineS,
    ),
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct W32_785(
    /// # Only
    #[schemars(schema_with = "sup::sw2")]
    #[garde(inner(range(max = 5)))]
    #[schemars(description = "Rd")]
    pub TT,
);
#[derive(JsonSchema)]
#[serde(rename_all_fields = "snake_case")]
pub enum W31_2020 {
    /// # Rt
    ///
    /// body
    #[serde(rename(serialize = "vs1", deserialize = "vd1"))]
    Q(
        #[schemars(description = "Rd")]
        #[serde(skip_deserializing)]
        #[serde(skip_serializing)]
        Option<Refd>,
        /// # Only
        #[schemars(length(min = 1))]
        Inner1,
        Box<Option<B>>,
    ),
    /// # Only
    #[serde(untagged)]
    X1Y2 {
        #[schemars(rename(serialize = "rs22"))]
        #[validate(range(min = 1, max = 9))]
        trail_: Vec<A>,
        #[schemars(skip_serializing_if = "sif")]
        #[schemars(schema_with = "sw1")]
        #[schemars(extend("x-r" = [1]))]
        foo_bar: Inner1,
    },
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[serde(rename_all = "camelCase")]
pub struct W31_2021 {
    #[deprecated]
    #[schemars(skip_serializing_if = "sif")]
    pub foo_bar_baz: B,
    /// # Rt
    ///
    /// body
    #[schemars(with = "Refd")]
    pub w2: Box<Option<B>>,
    /// Doc r.
    #[serde(skip_serializing)]
    #[schemars(!skip_serializing)]
    #[schemars(default)]
    #[validate(range(min = 1, max = 9))]
    pub ab: MultiT,
    #[serde(skip_deserializing)]
    #[serde(skip_serializing)]
    pub trail_: Option<Refd>,
}
#[derive(JsonSchema)]
pub struct W31_2022(
    /// # Rt
    ///
    /// body
    #[garde(inner(range(max = 5)))]
    #[schemars(skip_deserializing)]
    pub InlineS,
    pub Inner1,
    #[schemars(schema_with = "sw1")]
    pub Box<Option<B>>,
);
#[derive(JsonSchema)]
/// # Only
#[schemars(rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "SCREAMING-KEBAB-CASE"))]
pub struct W31_2023 {
    #[schemars(schema_with = "sw_obj")]
    #[schemars(inner(length(min = 1)))]
    #[schemars(email)]
    #[schemars(default)]
    #[schemars(title = "Rt")]
    #[serde(skip_serializing_if = "sif")]
    pub foo_bar_baz: Refd,
    #[schemars(example = 8)]
    #[serde(default)]
    #[garde(ipv4)]
    #[serde(skip_serializing)]
    pub a: Box<Option<B>>,
    /// Doc r.
    #[serde(default)]
    pub w2: D,
}
#[derive(JsonSchema)]
/// # Rt
///
/// body
#[schemars(example = 8)]
#[schemars(rename_all(serialize = "PascalCase"))]
pub struct W31_2024 {
    #[serde(default)]
    pub dbl__us: B,
    #[schemars(skip_serializing)]
    #[schemars(flatten)]
    pub foo_bar_baz: A,
}
#[derive(JsonSchema)]
pub struct W32_786(
    pub Option<String>,
);
#[derive(JsonSchema)]
/// # Only
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W32_787 {
    /// # Only
    #[deprecated]
    #[schemars(title = "")]
    Zz,
}
#[derive(JsonSchema)]
pub struct W32_788(
    #[validate(url)]
    #[schemars(extend("title" = "Xt"))]
    pub Vec<String>,
    /// # Only
    pub A,
);
#[derive(JsonSchema)]
pub struct W30_1 {
    #[serde(flatten)]
    pub m: Mal,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W30_2 {
    #[serde(flatten)]
    pub m: Mal,
}
#[derive(JsonSchema)]
pub struct W30_3 {
    #[serde(flatten)]
    pub m: Mal,
    #[serde(flatten)]
    pub i: Inner1,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W30_4 {
    #[serde(flatten)]
    pub m: Mal,
    #[serde(flatten)]
    pub i: Inner1,
}
#[derive(JsonSchema)]
pub struct W30_5 {
    #[serde(flatten)]
    pub i: Inner1,
    #[serde(flatten)]
    pub m: Mal,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W30_6 {
    #[serde(flatten)]
    pub i: Inner1,
    #[serde(flatten)]
    pub m: Mal,
}
#[derive(JsonSchema)]
pub struct W30_7 {
    pub a: A,
    #[serde(flatten)]
    pub m: Mal,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W30_8 {
    pub a: A,
    #[serde(flatten)]
    pub m: Mal,
}
#[derive(JsonSchema)]
pub struct W30_9 {
    #[serde(flatten)]
    pub m: Option<Mal>,
    pub a: A,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W30_10 {
    #[serde(flatten)]
    pub m: Option<Mal>,
    pub a: A,
}
#[derive(JsonSchema)]
pub struct W30_11 {
    #[serde(flatten)]
    pub m: Mal,
    #[serde(flatten)]
    pub m2: Mal,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W30_12 {
    #[serde(flatten)]
    pub m: Mal,
    #[serde(flatten)]
    pub m2: Mal,
}
#[derive(JsonSchema)]
pub struct W30_13 {
    #[serde(flatten)]
    pub e: Enum1,
    #[serde(flatten)]
    pub m: Mal,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W30_14 {
    #[serde(flatten)]
    pub e: Enum1,
    #[serde(flatten)]
    pub m: Mal,
}
#[derive(JsonSchema)]
pub struct W30_15 {
    #[serde(flatten)]
    pub m: Mal,
    #[serde(flatten)]
    pub e: UnEnum,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W30_16 {
    #[serde(flatten)]
    pub m: Mal,
    #[serde(flatten)]
    pub e: UnEnum,
}
#[derive(JsonSchema)]
pub struct W30_17 {
    #[serde(flatten)]
    #[serde(default)]
    pub m: Mal,
    pub a: A,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W30_18 {
    #[serde(flatten)]
    #[serde(default)]
    pub m: Mal,
    pub a: A,
}
#[derive(JsonSchema)]
pub struct W30_19 {
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub m: Mal,
    pub a: A,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub struct W30_20 {
    #[serde(flatten)]
    #[serde(skip_serializing)]
    pub m: Mal,
    pub a: A,
}
#[derive(JsonSchema)]
pub struct W30_21 {
    pub m: Mal,
    pub o: Option<Mal>,
    pub v: Vec<Mal>,
    #[serde(default)]
    pub d: Mal,
    #[schemars(required)]
    pub r: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_22 {
    #[schemars(title = "t")]
    #[schemars(description = "d")]
    pub md: Mal,
    #[schemars(extend("x-k" = 1))]
    pub ex: Mal,
}
#[derive(JsonSchema)]
pub struct W30_23 {
    #[schemars(length(min = 1))]
    pub m: Mal,
    #[schemars(length(min = 1))]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_24 {
    #[validate(length(max = 8))]
    pub m: Mal,
    #[validate(length(max = 8))]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_25 {
    #[garde(length(equal = 3))]
    pub m: Mal,
    #[garde(length(equal = 3))]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_26 {
    #[schemars(range(min = 2))]
    pub m: Mal,
    #[schemars(range(min = 2))]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_27 {
    #[validate(range(min = 1, max = 9))]
    pub m: Mal,
    #[validate(range(min = 1, max = 9))]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_28 {
    #[schemars(email)]
    pub m: Mal,
    #[schemars(email)]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_29 {
    #[validate(url)]
    pub m: Mal,
    #[validate(url)]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_30 {
    #[garde(ipv4)]
    pub m: Mal,
    #[garde(ipv4)]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_31 {
    #[schemars(regex(pattern = "^r"))]
    pub m: Mal,
    #[schemars(regex(pattern = "^r"))]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_32 {
    #[schemars(contains("c.c"))]
    pub m: Mal,
    #[schemars(contains("c.c"))]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_33 {
    #[schemars(inner(length(min = 1)))]
    pub m: Mal,
    #[schemars(inner(length(min = 1)))]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_34 {
    #[garde(inner(range(max = 5)))]
    pub m: Mal,
    #[garde(inner(range(max = 5)))]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_35 {
    #[schemars(email)]
    pub m: Mal,
    #[schemars(email)]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_36 {
    #[schemars(url)]
    pub m: Mal,
    #[schemars(url)]
    pub o: Option<Mal>,
}
#[derive(JsonSchema)]
pub struct W30_37 {
    #[schemars(length(min = 1, max = 2))]
    #[schemars(range(min = 1))]
    #[schemars(inner(inner(length(min = 1), regex(pattern = "^r"))))]
    pub m: Mal,
}
#[derive(JsonSchema)]
pub enum W30_38 {
    Va(
        Mal,
    ),
    Vb {
        #[serde(flatten)]
        m: Mal,
        a: A,
    },
}
#[derive(JsonSchema)]
/// e
#[schemars(title = "T")]
pub enum W30_39 {
    /// d
    Va(
        Mal,
    ),
    Vb(
        Option<Mal>,
    ),
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
pub enum W30_40 {
    #[schemars(title = "v")]
    Va(
        Mal,
    ),
    Vu,
}
#[derive(JsonSchema)]
/// d
#[schemars(title = "t")]
pub struct W30_41 {
    #[serde(flatten)]
    pub f: Mal,
    pub a: A,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
pub enum W30_42 {
    Va(
        Mal,
    ),
    Vb {
        #[serde(flatten)]
        m: Mal,
        a: A,
    },
}
#[derive(JsonSchema)]
/// e
#[serde(tag = "tg")]
#[schemars(title = "T")]
pub enum W30_43 {
    /// d
    Va(
        Mal,
    ),
    Vb(
        Option<Mal>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[schemars(deny_unknown_fields)]
pub enum W30_44 {
    #[schemars(title = "v")]
    Va(
        Mal,
    ),
    Vu,
}
#[derive(JsonSchema)]
/// d
#[schemars(title = "t")]
pub struct W30_45 {
    #[serde(flatten)]
    pub f: Mal,
    pub a: A,
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
pub enum W30_46 {
    Va(
        Mal,
    ),
    Vb {
        #[serde(flatten)]
        m: Mal,
        a: A,
    },
}
#[derive(JsonSchema)]
/// e
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(title = "T")]
pub enum W30_47 {
    /// d
    Va(
        Mal,
    ),
    Vb(
        Option<Mal>,
    ),
}
#[derive(JsonSchema)]
#[serde(tag = "tg")]
#[serde(content = "ct")]
#[schemars(deny_unknown_fields)]
pub enum W30_48 {
    #[schemars(title = "v")]
    Va(
        Mal,
    ),
    Vu,
}
#[derive(JsonSchema)]
/// d
#[schemars(title = "t")]
pub struct W30_49 {
    #[serde(flatten)]
    pub f: Mal,
    pub a: A,
}
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum W30_50 {
    Va(
        Mal,
    ),
    Vb {
        #[serde(flatten)]
        m: Mal,
        a: A,
    },
}
#[derive(JsonSchema)]
/// e
#[serde(untagged)]
#[schemars(title = "T")]
pub enum W30_51 {
    /// d
    Va(
        Mal,
    ),
    Vb(
        Option<Mal>,
    ),
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[schemars(deny_unknown_fields)]
pub enum W30_52 {
    #[schemars(title = "v")]
    Va(
        Mal,
    ),
    Vu,
}
#[derive(JsonSchema)]
/// d
#[schemars(title = "t")]
pub struct W30_53 {
    #[serde(flatten)]
    pub f: Mal,
    pub a: A,
}
#[derive(JsonSchema)]
/// d
pub struct W30_54(
    pub Mal,
);
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(title = "t")]
pub struct W30_55(
    pub Mal,
);
#[derive(JsonSchema)]
pub struct W30_56(
    pub Mal,
    pub Option<Mal>,
);
schemas! {
    w_w31_1: W31_1 = W31_1,
    w_w31_2: W31_2 = W31_2,
    w_w31_3: W31_3 = W31_3,
    w_w31_4: W31_4 = W31_4,
    w_w31_5: W31_5 = W31_5,
    w_w31_6: W31_6 = W31_6,
    w_w31_7: W31_7 = W31_7,
    w_w31_8: W31_8 = W31_8,
    w_w31_9: W31_9 = W31_9,
    w_w31_10: W31_10 = W31_10,
    w_w31_11: W31_11 = W31_11,
    w_w31_12: W31_12 = W31_12,
    w_w31_13: W31_13 = W31_13,
    w_w31_14: W31_14 = W31_14,
    w_w31_15: W31_15 = W31_15,
    w_w31_16: W31_16 = W31_16,
    w_w31_17: W31_17 = W31_17,
    w_w31_18: W31_18 = W31_18,
    w_w31_19: W31_19 = W31_19,
    w_w31_20: W31_20 = W31_20,
    w_w31_21: W31_21 = W31_21,
    w_w31_22: W31_22 = W31_22,
    w_w31_23: W31_23 = W31_23,
    w_w31_24: W31_24 = W31_24,
    w_w31_25: W31_25 = W31_25,
    w_w31_26: W31_26 = W31_26,
    w_w31_27: W31_27 = W31_27,
    w_w31_28: W31_28 = W31_28,
    w_w31_29: W31_29 = W31_29,
    w_w31_30: W31_30 = W31_30,
    w_w31_31: W31_31 = W31_31,
    w_w31_32: W31_32 = W31_32,
    w_w31_33: W31_33 = W31_33,
    w_w31_34: W31_34 = W31_34,
    w_w31_35: W31_35 = W31_35,
    w_w31_36: W31_36 = W31_36,
    w_w31_37: W31_37 = W31_37,
    w_w31_38: W31_38 = W31_38,
    w_w31_39: W31_39 = W31_39,
    w_w31_40: W31_40 = W31_40,
    w_w31_41: W31_41 = W31_41,
    w_w31_42: W31_42 = W31_42,
    w_w31_43: W31_43 = W31_43,
    w_w31_44: W31_44 = W31_44,
    w_w31_45: W31_45 = W31_45,
    w_w31_46: W31_46 = W31_46,
    w_w31_47: W31_47 = W31_47,
    w_w31_48: W31_48 = W31_48,
    w_w31_49: W31_49 = W31_49,
    w_w31_50: W31_50 = W31_50,
    w_w31_51: W31_51 = W31_51,
    w_w31_52: W31_52 = W31_52,
    w_w31_53: W31_53 = W31_53,
    w_w31_54: W31_54 = W31_54,
    w_w31_55: W31_55 = W31_55,
    w_w31_56: W31_56 = W31_56,
    w_w31_57: W31_57 = W31_57,
    w_w31_58: W31_58 = W31_58,
    w_w31_59: W31_59 = W31_59,
    w_w31_60: W31_60 = W31_60,
    w_w31_61: W31_61 = W31_61,
    w_w31_62: W31_62 = W31_62,
    w_w31_63: W31_63 = W31_63,
    w_w31_64: W31_64 = W31_64,
    w_w31_65: W31_65 = W31_65,
    w_w31_66: W31_66 = W31_66,
    w_w31_67: W31_67 = W31_67,
    w_w31_68: W31_68 = W31_68,
    w_w31_69: W31_69 = W31_69,
    w_w31_70: W31_70 = W31_70,
    w_w31_71: W31_71 = W31_71,
    w_w31_72: W31_72 = W31_72,
    w_w31_73: W31_73 = W31_73,
    w_w31_74: W31_74 = W31_74,
    w_w31_75: W31_75 = W31_75,
    w_w31_76: W31_76 = W31_76,
    w_w31_77: W31_77 = W31_77,
    w_w31_78: W31_78 = W31_78,
    w_w31_79: W31_79 = W31_79,
    w_w31_80: W31_80 = W31_80,
    w_w31_81: W31_81 = W31_81,
    w_w31_82: W31_82 = W31_82,
    w_w31_83: W31_83 = W31_83,
    w_w31_84: W31_84 = W31_84,
    w_w31_85: W31_85 = W31_85,
    w_w31_86: W31_86 = W31_86,
    w_w31_87: W31_87 = W31_87,
    w_w31_88: W31_88 = W31_88,
    w_w31_89: W31_89 = W31_89,
    w_w31_90: W31_90 = W31_90,
    w_w31_91: W31_91 = W31_91,
    w_w31_92: W31_92 = W31_92,
    w_w31_93: W31_93 = W31_93,
    w_w31_94: W31_94 = W31_94,
    w_w31_95: W31_95 = W31_95,
    w_w31_96: W31_96 = W31_96,
    w_w31_97: W31_97 = W31_97,
    w_w31_98: W31_98 = W31_98,
    w_w31_99: W31_99 = W31_99,
    w_w31_100: W31_100 = W31_100,
    w_w31_101: W31_101 = W31_101,
    w_w31_102: W31_102 = W31_102,
    w_w31_103: W31_103 = W31_103,
    w_w31_104: W31_104 = W31_104,
    w_w31_105: W31_105 = W31_105,
    w_w31_106: W31_106 = W31_106,
    w_w31_107: W31_107 = W31_107,
    w_w31_108: W31_108 = W31_108,
    w_w31_109: W31_109 = W31_109,
    w_w31_110: W31_110 = W31_110,
    w_w31_111: W31_111 = W31_111,
    w_w31_112: W31_112 = W31_112,
    w_w31_113: W31_113 = W31_113,
    w_w31_114: W31_114 = W31_114,
    w_w31_115: W31_115 = W31_115,
    w_w31_116: W31_116 = W31_116,
    w_w31_117: W31_117 = W31_117,
    w_w31_118: W31_118 = W31_118,
    w_w31_119: W31_119 = W31_119,
    w_w31_120: W31_120 = W31_120,
    w_w31_121: W31_121 = W31_121,
    w_w31_122: W31_122 = W31_122,
    w_w31_123: W31_123 = W31_123,
    w_w31_124: W31_124 = W31_124,
    w_w31_125: W31_125 = W31_125,
    w_w31_126: W31_126 = W31_126,
    w_w31_127: W31_127 = W31_127,
    w_w31_128: W31_128 = W31_128,
    w_w31_129: W31_129 = W31_129,
    w_w31_130: W31_130 = W31_130,
    w_w31_131: W31_131 = W31_131,
    w_w31_132: W31_132 = W31_132,
    w_w31_133: W31_133 = W31_133,
    w_w31_134: W31_134 = W31_134,
    w_w31_135: W31_135 = W31_135,
    w_w31_136: W31_136 = W31_136,
    w_w31_137: W31_137 = W31_137,
    w_w31_138: W31_138 = W31_138,
    w_w31_139: W31_139 = W31_139,
    w_w31_140: W31_140 = W31_140,
    w_w31_141: W31_141 = W31_141,
    w_w31_142: W31_142 = W31_142,
    w_w31_143: W31_143 = W31_143,
    w_w31_144: W31_144 = W31_144,
    w_w31_145: W31_145 = W31_145,
    w_w31_146: W31_146 = W31_146,
    w_w31_147: W31_147 = W31_147,
    w_w31_148: W31_148 = W31_148,
    w_w31_149: W31_149 = W31_149,
    w_w31_150: W31_150 = W31_150,
    w_w31_151: W31_151 = W31_151,
    w_w31_152: W31_152 = W31_152,
    w_w31_153: W31_153 = W31_153,
    w_w31_154: W31_154 = W31_154,
    w_w31_155: W31_155 = W31_155,
    w_w31_156: W31_156 = W31_156,
    w_w31_157: W31_157 = W31_157,
    w_w31_158: W31_158 = W31_158,
    w_w31_159: W31_159 = W31_159,
    w_w31_160: W31_160 = W31_160,
    w_w31_161: W31_161 = W31_161,
    w_w31_162: W31_162 = W31_162,
    w_w31_163: W31_163 = W31_163,
    w_w31_164: W31_164 = W31_164,
    w_w31_165: W31_165 = W31_165,
    w_w31_166: W31_166 = W31_166,
    w_w31_167: W31_167 = W31_167,
    w_w31_168: W31_168 = W31_168,
    w_w31_169: W31_169 = W31_169,
    w_w31_170: W31_170 = W31_170,
    w_w31_171: W31_171 = W31_171,
    w_w31_172: W31_172 = W31_172,
    w_w31_173: W31_173 = W31_173,
    w_w31_174: W31_174 = W31_174,
    w_w31_175: W31_175 = W31_175,
    w_w31_176: W31_176 = W31_176,
    w_w31_177: W31_177 = W31_177,
    w_w31_178: W31_178 = W31_178,
    w_w31_179: W31_179 = W31_179,
    w_w31_180: W31_180 = W31_180,
    w_w31_181: W31_181 = W31_181,
    w_w31_182: W31_182 = W31_182,
    w_w31_183: W31_183 = W31_183,
    w_w31_184: W31_184 = W31_184,
    w_w31_185: W31_185 = W31_185,
    w_w31_186: W31_186 = W31_186,
    w_w31_187: W31_187 = W31_187,
    w_w31_188: W31_188 = W31_188,
    w_w31_189: W31_189 = W31_189,
    w_w31_190: W31_190 = W31_190,
    w_w31_191: W31_191 = W31_191,
    w_w31_192: W31_192 = W31_192,
    w_w31_193: W31_193 = W31_193,
    w_w31_194: W31_194 = W31_194,
    w_w31_195: W31_195 = W31_195,
    w_w31_196: W31_196 = W31_196,
    w_w31_197: W31_197 = W31_197,
    w_w31_198: W31_198 = W31_198,
    w_w31_199: W31_199 = W31_199,
    w_w31_200: W31_200 = W31_200,
    w_w31_201: W31_201 = W31_201,
    w_w31_202: W31_202 = W31_202,
    w_w31_203: W31_203 = W31_203,
    w_w31_204: W31_204 = W31_204,
    w_w31_205: W31_205 = W31_205,
    w_w31_206: W31_206 = W31_206,
    w_w31_207: W31_207 = W31_207,
    w_w31_208: W31_208 = W31_208,
    w_w31_209: W31_209 = W31_209,
    w_w31_210: W31_210 = W31_210,
    w_w31_211: W31_211 = W31_211,
    w_w31_212: W31_212 = W31_212,
    w_w31_213: W31_213 = W31_213,
    w_w31_214: W31_214 = W31_214,
    w_w31_215: W31_215 = W31_215,
    w_w31_216: W31_216 = W31_216,
    w_w31_217: W31_217 = W31_217,
    w_w31_218: W31_218 = W31_218,
    w_w31_219: W31_219 = W31_219,
    w_w31_220: W31_220 = W31_220,
    w_w31_221: W31_221 = W31_221,
    w_w31_222: W31_222 = W31_222,
    w_w31_223: W31_223 = W31_223,
    w_w31_224: W31_224 = W31_224,
    w_w31_225: W31_225 = W31_225,
    w_w31_226: W31_226 = W31_226,
    w_w31_227: W31_227 = W31_227,
    w_w31_228: W31_228 = W31_228,
    w_w31_229: W31_229 = W31_229,
    w_w31_230: W31_230 = W31_230,
    w_w31_231: W31_231 = W31_231,
    w_w31_232: W31_232 = W31_232,
    w_w31_233: W31_233 = W31_233,
    w_w31_234: W31_234 = W31_234,
    w_w31_235: W31_235 = W31_235,
    w_w31_236: W31_236 = W31_236,
    w_w31_237: W31_237 = W31_237,
    w_w31_238: W31_238 = W31_238,
    w_w31_239: W31_239 = W31_239,
    w_w31_240: W31_240 = W31_240,
    w_w31_241: W31_241 = W31_241,
    w_w31_242: W31_242 = W31_242,
    w_w31_243: W31_243 = W31_243,
    w_w31_244: W31_244 = W31_244,
    w_w31_245: W31_245 = W31_245,
    w_w31_246: W31_246 = W31_246,
    w_w31_247: W31_247 = W31_247,
    w_w31_248: W31_248 = W31_248,
    w_w31_249: W31_249 = W31_249,
    w_w31_250: W31_250 = W31_250,
    w_w31_251: W31_251 = W31_251,
    w_w31_252: W31_252 = W31_252,
    w_w31_253: W31_253 = W31_253,
    w_w31_254: W31_254 = W31_254,
    w_w31_255: W31_255 = W31_255,
    w_w31_256: W31_256 = W31_256,
    w_w31_257: W31_257 = W31_257,
    w_w31_258: W31_258 = W31_258,
    w_w31_259: W31_259 = W31_259,
    w_w31_260: W31_260 = W31_260,
    w_w31_261: W31_261 = W31_261,
    w_w31_262: W31_262 = W31_262,
    w_w31_263: W31_263 = W31_263,
    w_w31_264: W31_264 = W31_264,
    w_w31_265: W31_265 = W31_265,
    w_w31_266: W31_266 = W31_266,
    w_w31_267: W31_267 = W31_267,
    w_w31_268: W31_268 = W31_268,
    w_w31_269: W31_269 = W31_269,
    w_w31_270: W31_270 = W31_270,
    w_w31_271: W31_271 = W31_271,
    w_w31_272: W31_272 = W31_272,
    w_w31_273: W31_273 = W31_273,
    w_w32_1: W32_1 = W32_1,
    w_w32_2: W32_2 = W32_2,
    w_w32_3: W32_3 = W32_3,
    w_w32_4: W32_4 = W32_4,
    w_w32_5: W32_5 = W32_5,
    w_w32_6: W32_6 = W32_6,
    w_w32_7: W32_7 = W32_7,
    w_w32_8: W32_8 = W32_8,
    w_w32_9: W32_9 = W32_9,
    w_w32_10: W32_10 = W32_10,
    w_w32_11: W32_11 = W32_11,
    w_w32_12: W32_12 = W32_12,
    w_w32_13: W32_13 = W32_13,
    w_w32_14: W32_14 = W32_14,
    w_w32_15: W32_15 = W32_15,
    w_w32_16: W32_16 = W32_16,
    w_w32_17: W32_17 = W32_17,
    w_w32_18: W32_18 = W32_18,
    w_w32_19: W32_19 = W32_19,
    w_w32_20: W32_20 = W32_20,
    w_w32_21: W32_21 = W32_21,
    w_w32_22: W32_22 = W32_22,
    w_w32_23: W32_23 = W32_23,
    w_w32_24: W32_24 = W32_24,
    w_w32_25: W32_25 = W32_25,
    w_w32_26: W32_26 = W32_26,
    w_w32_27: W32_27 = W32_27,
    w_w32_28: W32_28 = W32_28,
    w_w32_29: W32_29 = W32_29,
    w_w32_30: W32_30 = W32_30,
    w_w32_31: W32_31 = W32_31,
    w_w32_32: W32_32 = W32_32,
    w_w32_33: W32_33 = W32_33,
    w_w32_34: W32_34 = W32_34,
    w_w32_35: W32_35 = W32_35,
    w_w32_36: W32_36 = W32_36,
    w_w32_37: W32_37 = W32_37,
    w_w32_38: W32_38 = W32_38,
    w_w32_39: W32_39 = W32_39,
    w_w32_40: W32_40 = W32_40,
    w_w32_41: W32_41 = W32_41,
    w_w32_42: W32_42 = W32_42,
    w_w32_43: W32_43 = W32_43,
    w_w32_44: W32_44 = W32_44,
    w_w32_45: W32_45 = W32_45,
    w_w32_46: W32_46 = W32_46,
    w_w32_47: W32_47 = W32_47,
    w_w32_48: W32_48 = W32_48,
    w_w32_49: W32_49 = W32_49,
    w_w32_50: W32_50 = W32_50,
    w_w32_51: W32_51 = W32_51,
    w_w32_52: W32_52 = W32_52,
    w_w32_53: W32_53 = W32_53,
    w_w32_54: W32_54 = W32_54,
    w_w32_55: W32_55 = W32_55,
    w_w32_56: W32_56 = W32_56,
    w_w32_57: W32_57 = W32_57,
    w_w32_58: W32_58 = W32_58,
    w_w32_59: W32_59 = W32_59,
    w_w32_60: W32_60 = W32_60,
    w_w32_61: W32_61 = W32_61,
    w_w32_62: W32_62 = W32_62,
    w_w32_63: W32_63 = W32_63,
    w_w32_64: W32_64 = W32_64,
    w_w32_65: W32_65 = W32_65,
    w_w32_66: W32_66 = W32_66,
    w_w32_67: W32_67 = W32_67,
    w_w32_68: W32_68 = W32_68,
    w_w32_69: W32_69 = W32_69,
    w_w32_70: W32_70 = W32_70,
    w_w32_71: W32_71 = W32_71,
    w_w32_72: W32_72 = W32_72,
    w_w32_73: W32_73 = W32_73,
    w_w32_74: W32_74 = W32_74,
    w_w32_75: W32_75 = W32_75,
    w_w32_76: W32_76 = W32_76,
    w_w32_77: W32_77 = W32_77,
    w_w32_78: W32_78 = W32_78,
    w_w32_79: W32_79 = W32_79,
    w_w32_80: W32_80 = W32_80,
    w_w32_81: W32_81 = W32_81,
    w_w32_82: W32_82 = W32_82,
    w_w32_83: W32_83 = W32_83,
    w_w32_84: W32_84 = W32_84,
    w_w32_85: W32_85 = W32_85,
    w_w32_86: W32_86 = W32_86,
    w_w32_87: W32_87 = W32_87,
    w_w32_88: W32_88 = W32_88,
    w_w32_89: W32_89 = W32_89,
    w_w32_90: W32_90 = W32_90,
    w_w32_91: W32_91 = W32_91,
    w_w32_92: W32_92 = W32_92,
    w_w32_93: W32_93 = W32_93,
    w_w32_94: W32_94 = W32_94,
    w_w32_95: W32_95 = W32_95,
    w_w32_96: W32_96 = W32_96,
    w_w32_97: W32_97 = W32_97,
    w_w32_98: W32_98 = W32_98,
    w_w32_99: W32_99 = W32_99,
    w_w32_100: W32_100 = W32_100,
    w_w32_101: W32_101 = W32_101,
    w_w32_102: W32_102 = W32_102,
    w_w32_103: W32_103 = W32_103,
    w_w32_104: W32_104 = W32_104,
    w_w32_105: W32_105 = W32_105,
    w_w32_106: W32_106 = W32_106,
    w_w32_107: W32_107 = W32_107,
    w_w32_108: W32_108 = W32_108,
    w_w32_109: W32_109 = W32_109,
    w_w32_110: W32_110 = W32_110,
    w_w32_111: W32_111 = W32_111,
    w_w32_112: W32_112 = W32_112,
    w_w32_113: W32_113 = W32_113,
    w_w32_114: W32_114 = W32_114,
    w_w32_115: W32_115 = W32_115,
    w_w32_116: W32_116 = W32_116,
    w_w32_117: W32_117 = W32_117,
    w_w32_118: W32_118 = W32_118,
    w_w32_119: W32_119 = W32_119,
    w_w32_120: W32_120 = W32_120,
    w_w32_121: W32_121 = W32_121,
    w_w32_122: W32_122 = W32_122,
    w_w32_123: W32_123 = W32_123,
    w_w32_124: W32_124 = W32_124,
    w_w32_125: W32_125 = W32_125,
    w_w32_126: W32_126 = W32_126,
    w_w32_127: W32_127 = W32_127,
    w_w32_128: W32_128 = W32_128,
    w_w32_129: W32_129 = W32_129,
    w_w32_130: W32_130 = W32_130,
    w_w32_131: W32_131 = W32_131,
    w_w32_132: W32_132 = W32_132,
    w_w32_133: W32_133 = W32_133,
    w_w32_134: W32_134 = W32_134,
    w_w32_135: W32_135 = W32_135,
    w_w32_136: W32_136 = W32_136,
    w_w32_137: W32_137 = W32_137,
    w_w32_138: W32_138 = W32_138,
    w_w32_139: W32_139 = W32_139,
    w_w32_140: W32_140 = W32_140,
    w_w32_141: W32_141 = W32_141,
    w_w32_142: W32_142 = W32_142,
    w_w32_143: W32_143 = W32_143,
    w_w32_144: W32_144 = W32_144,
    w_w32_145: W32_145 = W32_145,
    w_w32_146: W32_146 = W32_146,
    w_w32_147: W32_147 = W32_147,
    w_w32_148: W32_148 = W32_148,
    w_w32_149: W32_149 = W32_149,
    w_w32_150: W32_150 = W32_150,
    w_w32_151: W32_151 = W32_151,
    w_w32_152: W32_152 = W32_152,
    w_w32_153: W32_153 = W32_153,
    w_w32_154: W32_154 = W32_154,
    w_w32_155: W32_155 = W32_155,
    w_w32_156: W32_156 = W32_156,
    w_w32_157: W32_157 = W32_157,
    w_w32_158: W32_158 = W32_158,
    w_w32_159: W32_159 = W32_159,
    w_w32_160: W32_160 = W32_160,
    w_w32_161: W32_161 = W32_161,
    w_w32_162: W32_162 = W32_162,
    w_w32_163: W32_163 = W32_163,
    w_w32_164: W32_164 = W32_164,
    w_w32_165: W32_165 = W32_165,
    w_w32_166: W32_166 = W32_166,
    w_w32_167: W32_167 = W32_167,
    w_w32_168: W32_168 = W32_168,
    w_w32_169: W32_169 = W32_169,
    w_w32_170: W32_170 = W32_170,
    w_w32_171: W32_171 = W32_171,
    w_w32_172: W32_172 = W32_172,
    w_w32_173: W32_173 = W32_173,
    w_w32_174: W32_174 = W32_174,
    w_w32_175: W32_175 = W32_175,
    w_w32_176: W32_176 = W32_176,
    w_w32_177: W32_177 = W32_177,
    w_w32_178: W32_178 = W32_178,
    w_w32_179: W32_179 = W32_179,
    w_w32_180: W32_180 = W32_180,
    w_w32_181: W32_181 = W32_181,
    w_w32_182: W32_182 = W32_182,
    w_w32_183: W32_183 = W32_183,
    w_w32_184: W32_184 = W32_184,
    w_w32_185: W32_185 = W32_185,
    w_w32_186: W32_186 = W32_186,
    w_w32_187: W32_187 = W32_187,
    w_w32_188: W32_188 = W32_188,
    w_w32_189: W32_189 = W32_189,
    w_w32_190: W32_190 = W32_190,
    w_w32_191: W32_191 = W32_191,
    w_w32_192: W32_192 = W32_192,
    w_w32_193: W32_193 = W32_193,
    w_w32_194: W32_194 = W32_194,
    w_w32_195: W32_195 = W32_195,
    w_w32_196: W32_196 = W32_196,
    w_w32_mk: W32_mk = W32_mk,
    w_w32_197: W32_197 = W32_197,
    w_w32_198: W32_198 = W32_198,
    w_w32_199: W32_199 = W32_199,
    w_w32_200: W32_200 = W32_200,
    w_w32_201: W32_201 = W32_201,
    w_w32_202: W32_202 = W32_202,
    w_w32_203: W32_203 = W32_203,
    w_w32_204: W32_204 = W32_204,
    w_w32_205: W32_205 = W32_205,
    w_w32_206: W32_206 = W32_206,
    w_w32_207: W32_207 = W32_207,
    w_w32_208: W32_208 = W32_208,
    w_w32_209: W32_209 = W32_209,
    w_w32_210: W32_210 = W32_210,
    w_w32_211: W32_211 = W32_211,
    w_w33_1: W33_1 = W33_1,
    w_w33_2: W33_2 = W33_2,
    w_w33_3: W33_3 = W33_3,
    w_w33_4: W33_4 = W33_4,
    w_w33_5: W33_5 = W33_5,
    w_w33_6: W33_6 = W33_6,
    w_w33_7: W33_7 = W33_7,
    w_w33_8: W33_8 = W33_8,
    w_w33_9: W33_9 = W33_9,
    w_w33_10: W33_10 = W33_10,
    w_w33_11: W33_11 = W33_11,
    w_w33_12: W33_12 = W33_12,
    w_w33_13: W33_13 = W33_13,
    w_w33_14: W33_14 = W33_14,
    w_w33_15: W33_15 = W33_15,
    w_w33_16: W33_16 = W33_16,
    w_w33_17: W33_17 = W33_17,
    w_w33_18: W33_18 = W33_18,
    w_w33_19: W33_19 = W33_19,
    w_w33_20: W33_20 = W33_20,
    w_w33_21: W33_21 = W33_21,
    w_w33_22: W33_22 = W33_22,
    w_w33_23: W33_23 = W33_23,
    w_w33_24: W33_24 = W33_24,
    w_w33_25: W33_25 = W33_25,
    w_w33_26: W33_26 = W33_26,
    w_w33_27: W33_27 = W33_27,
    w_w33_28: W33_28 = W33_28,
    w_w33_29: W33_29 = W33_29,
    w_w33_30: W33_30 = W33_30,
    w_w33_31: W33_31 = W33_31,
    w_w33_32: W33_32 = W33_32,
    w_w33_33: W33_33 = W33_33,
    w_w33_34: W33_34 = W33_34,
    w_w33_35: W33_35 = W33_35,
    w_w33_36: W33_36 = W33_36,
    w_w33_37: W33_37 = W33_37,
    w_w33_38: W33_38 = W33_38,
    w_w33_39: W33_39 = W33_39,
    w_w33_40: W33_40 = W33_40,
    w_w33_41: W33_41 = W33_41,
    w_w33_42: W33_42 = W33_42,
    w_w33_43: W33_43 = W33_43,
    w_w33_44: W33_44 = W33_44,
    w_w33_45: W33_45 = W33_45,
    w_w33_46: W33_46 = W33_46,
    w_w33_47: W33_47 = W33_47,
    w_w33_48: W33_48 = W33_48,
    w_w33_49: W33_49 = W33_49,
    w_w33_50: W33_50 = W33_50,
    w_w33_51: W33_51 = W33_51,
    w_w33_52: W33_52 = W33_52,
    w_w33_53: W33_53 = W33_53,
    w_w33_54: W33_54 = W33_54,
    w_w33_55: W33_55 = W33_55,
    w_w33_56: W33_56 = W33_56,
    w_w33_57: W33_57 = W33_57,
    w_w33_58: W33_58 = W33_58,
    w_w33_59: W33_59 = W33_59,
    w_w33_60: W33_60 = W33_60,
    w_w33_61: W33_61 = W33_61,
    w_w33_62: W33_62 = W33_62,
    w_w33_63: W33_63 = W33_63,
    w_w33_64: W33_64 = W33_64,
    w_w33_65: W33_65 = W33_65,
    w_w33_66: W33_66 = W33_66,
    w_w33_67: W33_67 = W33_67,
    w_w33_68: W33_68 = W33_68,
    w_w33_69: W33_69 = W33_69,
    w_w33_70: W33_70 = W33_70,
    w_w33_71: W33_71 = W33_71,
    w_w33_72: W33_72 = W33_72,
    w_w33_73: W33_73 = W33_73,
    w_w33_74: W33_74 = W33_74,
    w_w33_75: W33_75 = W33_75,
    w_w33_76: W33_76 = W33_76,
    w_w33_77: W33_77 = W33_77,
    w_w33_78: W33_78 = W33_78,
    w_w33_79: W33_79 = W33_79,
    w_w33_80: W33_80 = W33_80,
    w_w33_81: W33_81 = W33_81,
    w_w33_82: W33_82 = W33_82,
    w_w33_83: W33_83 = W33_83,
    w_w33_84: W33_84 = W33_84,
    w_w33_85: W33_85 = W33_85,
    w_w33_86: W33_86 = W33_86,
    w_w33_87: W33_87 = W33_87,
    w_w33_88: W33_88 = W33_88,
    w_w33_89: W33_89 = W33_89,
    w_w33_90: W33_90 = W33_90,
    w_w33_91: W33_91 = W33_91,
    w_w33_92: W33_92 = W33_92,
    w_w33_93: W33_93 = W33_93,
    w_w33_94: W33_94 = W33_94,
    w_w33_95: W33_95 = W33_95,
    w_w33_96: W33_96 = W33_96,
    w_w33_97: W33_97 = W33_97,
    w_w33_98: W33_98 = W33_98,
    w_w33_99: W33_99 = W33_99,
    w_w33_100: W33_100 = W33_100,
    w_w33_101: W33_101 = W33_101,
    w_w33_102: W33_102 = W33_102,
    w_w33_103: W33_103 = W33_103,
    w_w33_104: W33_104 = W33_104,
    w_w33_105: W33_105 = W33_105,
    w_w33_106: W33_106 = W33_106,
    w_w33_107: W33_107 = W33_107,
    w_w33_108: W33_108 = W33_108,
    w_w33_109: W33_109 = W33_109,
    w_w33_110: W33_110 = W33_110,
    w_w33_111: W33_111 = W33_111,
    w_w33_112: W33_112 = W33_112,
    w_w33_113: W33_113 = W33_113,
    w_w33_114: W33_114 = W33_114,
    w_w33_115: W33_115 = W33_115,
    w_w33_116: W33_116 = W33_116,
    w_w33_117: W33_117 = W33_117,
    w_w33_118: W33_118 = W33_118,
    w_w33_119: W33_119 = W33_119,
    w_w33_120: W33_120 = W33_120,
    w_w33_121: W33_121 = W33_121,
    w_w33_122: W33_122 = W33_122,
    w_w33_123: W33_123 = W33_123,
    w_w33_124: W33_124 = W33_124,
    w_w33_125: W33_125 = W33_125,
    w_w33_126: W33_126 = W33_126,
    w_w33_127: W33_127 = W33_127,
    w_w33_128: W33_128 = W33_128,
    w_w33_129: W33_129 = W33_129,
    w_w33_130: W33_130 = W33_130,
    w_w33_131: W33_131 = W33_131,
    w_w33_132: W33_132 = W33_132,
    w_w33_133: W33_133 = W33_133,
    w_w33_134: W33_134 = W33_134,
    w_w33_135: W33_135 = W33_135,
    w_w33_136: W33_136 = W33_136,
    w_w33_137: W33_137 = W33_137,
    w_w33_138: W33_138 = W33_138,
    w_w33_139: W33_139 = W33_139,
    w_w33_140: W33_140 = W33_140,
    w_w33_141: W33_141 = W33_141,
    w_w33_142: W33_142 = W33_142,
    w_w33_143: W33_143 = W33_143,
    w_w33_144: W33_144 = W33_144,
    w_w33_145: W33_145 = W33_145,
    w_w33_146: W33_146 = W33_146,
    w_w33_147: W33_147 = W33_147,
    w_w33_148: W33_148 = W33_148,
    w_w33_149: W33_149 = W33_149,
    w_w33_150: W33_150 = W33_150,
    w_w33_151: W33_151 = W33_151,
    w_w33_152: W33_152 = W33_152,
    w_w33_153: W33_153 = W33_153,
    w_w33_154: W33_154 = W33_154,
    w_w33_155: W33_155 = W33_155,
    w_w33_156: W33_156 = W33_156,
    w_w33_157: W33_157 = W33_157,
    w_w33_158: W33_158 = W33_158,
    w_w33_159: W33_159 = W33_159,
    w_w33_160: W33_160 = W33_160,
    w_w33_161: W33_161 = W33_161,
    w_w33_162: W33_162 = W33_162,
    w_w33_163: W33_163 = W33_163,
    w_w33_164: W33_164 = W33_164,
    w_w33_165: W33_165 = W33_165,
    w_w33_166: W33_166 = W33_166,
    w_w33_167: W33_167 = W33_167,
    w_w33_168: W33_168 = W33_168,
    w_w33_169: W33_169 = W33_169,
    w_w33_170: W33_170 = W33_170,
    w_w33_171: W33_171 = W33_171,
    w_w33_172: W33_172 = W33_172,
    w_w33_173: W33_173 = W33_173,
    w_w33_174: W33_174 = W33_174,
    w_w33_175: W33_175 = W33_175,
    w_w33_176: W33_176 = W33_176,
    w_w33_177: W33_177 = W33_177,
    w_w33_178: W33_178 = W33_178,
    w_w33_179: W33_179 = W33_179,
    w_w33_180: W33_180 = W33_180,
    w_w33_181: W33_181 = W33_181,
    w_w33_182: W33_182 = W33_182,
    w_w33_183: W33_183 = W33_183,
    w_w33_184: W33_184 = W33_184,
    w_w33_185: W33_185 = W33_185,
    w_w33_186: W33_186 = W33_186,
    w_w33_187: W33_187 = W33_187,
    w_w33_188: W33_188 = W33_188,
    w_w33_189: W33_189 = W33_189,
    w_w33_190: W33_190 = W33_190,
    w_w33_191: W33_191 = W33_191,
    w_w33_192: W33_192 = W33_192,
    w_w33_193: W33_193 = W33_193,
    w_w33_194: W33_194 = W33_194,
    w_w33_195: W33_195 = W33_195,
    w_w33_196: W33_196 = W33_196,
    w_w33_197: W33_197 = W33_197,
    w_w33_198: W33_198 = W33_198,
    w_w33_199: W33_199 = W33_199,
    w_w33_200: W33_200 = W33_200,
    w_w33_201: W33_201 = W33_201,
    w_w33_202: W33_202 = W33_202,
    w_w33_203: W33_203 = W33_203,
    w_w33_204: W33_204 = W33_204,
    w_w33_205: W33_205 = W33_205,
    w_w33_206: W33_206 = W33_206,
    w_w33_207: W33_207 = W33_207,
    w_w33_208: W33_208 = W33_208,
    w_w33_209: W33_209 = W33_209,
    w_w33_210: W33_210 = W33_210,
    w_w33_211: W33_211 = W33_211,
    w_w33_212: W33_212 = W33_212,
    w_w33_213: W33_213 = W33_213,
    w_w33_214: W33_214 = W33_214,
    w_w33_215: W33_215 = W33_215,
    w_w33_216: W33_216 = W33_216,
    w_w33_217: W33_217 = W33_217,
    w_w33_218: W33_218 = W33_218,
    w_w33_219: W33_219 = W33_219,
    w_w33_220: W33_220 = W33_220,
    w_w33_221: W33_221 = W33_221,
    w_w33_222: W33_222 = W33_222,
    w_w33_223: W33_223 = W33_223,
    w_w33_224: W33_224 = W33_224,
    w_w33_225: W33_225 = W33_225,
    w_w33_226: W33_226 = W33_226,
    w_w33_227: W33_227 = W33_227,
    w_w33_228: W33_228 = W33_228,
    w_w33_229: W33_229 = W33_229,
    w_w33_230: W33_230 = W33_230,
    w_w33_231: W33_231 = W33_231,
    w_w33_232: W33_232 = W33_232,
    w_w33_233: W33_233 = W33_233,
    w_w33_234: W33_234 = W33_234,
    w_w33_235: W33_235 = W33_235,
    w_w33_236: W33_236 = W33_236,
    w_w33_237: W33_237 = W33_237,
    w_w33_238: W33_238 = W33_238,
    w_w33_239: W33_239 = W33_239,
    w_w33_240: W33_240 = W33_240,
    w_w33_241: W33_241 = W33_241,
    w_w33_242: W33_242 = W33_242,
    w_w33_243: W33_243 = W33_243,
    w_w33_244: W33_244 = W33_244,
    w_w33_245: W33_245 = W33_245,
    w_w33_246: W33_246 = W33_246,
    w_w33_247: W33_247 = W33_247,
    w_w33_248: W33_248 = W33_248,
    w_w33_249: W33_249 = W33_249,
    w_w33_250: W33_250 = W33_250,
    w_w33_251: W33_251 = W33_251,
    w_w33_252: W33_252 = W33_252,
    w_w33_253: W33_253 = W33_253,
    w_w33_254: W33_254 = W33_254,
    w_w33_255: W33_255 = W33_255,
    w_w33_256: W33_256 = W33_256,
    w_w33_257: W33_257 = W33_257,
    w_w33_258: W33_258 = W33_258,
    w_w33_259: W33_259 = W33_259,
    w_w33_260: W33_260 = W33_260,
    w_w33_261: W33_261 = W33_261,
    w_w33_262: W33_262 = W33_262,
    w_w33_263: W33_263 = W33_263,
    w_w33_264: W33_264 = W33_264,
    w_w33_265: W33_265 = W33_265,
    w_w33_266: W33_266 = W33_266,
    w_w33_267: W33_267 = W33_267,
    w_w33_268: W33_268 = W33_268,
    w_w33_269: W33_269 = W33_269,
    w_w33_270: W33_270 = W33_270,
    w_w33_271: W33_271 = W33_271,
    w_w33_272: W33_272 = W33_272,
    w_w33_273: W33_273 = W33_273,
    w_w33_274: W33_274 = W33_274,
    w_w33_275: W33_275 = W33_275,
    w_w33_276: W33_276 = W33_276,
    w_w33_277: W33_277 = W33_277,
    w_w33_278: W33_278 = W33_278,
    w_w33_279: W33_279 = W33_279,
    w_w33_280: W33_280 = W33_280,
    w_w33_281: W33_281 = W33_281,
    w_w33_282: W33_282 = W33_282,
    w_w33_283: W33_283 = W33_283,
    w_w33_284: W33_284 = W33_284,
    w_w33_285: W33_285 = W33_285,
    w_w33_286: W33_286 = W33_286,
    w_w33_287: W33_287 = W33_287,
    w_w33_288: W33_288 = W33_288,
    w_w33_289: W33_289 = W33_289,
    w_w33_290: W33_290 = W33_290,
    w_w33_291: W33_291 = W33_291,
    w_w33_292: W33_292 = W33_292,
    w_w33_293: W33_293 = W33_293,
    w_w33_294: W33_294 = W33_294,
    w_w33_295: W33_295 = W33_295,
    w_w33_296: W33_296 = W33_296,
    w_w33_297: W33_297 = W33_297,
    w_w33_298: W33_298 = W33_298,
    w_w33_299: W33_299 = W33_299,
    w_w33_300: W33_300 = W33_300,
    w_w33_301: W33_301 = W33_301,
    w_w33_302: W33_302 = W33_302,
    w_w33_303: W33_303 = W33_303,
    w_w33_304: W33_304 = W33_304,
    w_w33_305: W33_305 = W33_305,
    w_w33_306: W33_306 = W33_306,
    w_w33_307: W33_307 = W33_307,
    w_w33_308: W33_308 = W33_308,
    w_w33_309: W33_309 = W33_309,
    w_w33_310: W33_310 = W33_310,
    w_w33_311: W33_311 = W33_311,
    w_w33_312: W33_312 = W33_312,
    w_w33_313: W33_313 = W33_313,
    w_w33_314: W33_314 = W33_314,
    w_w33_315: W33_315 = W33_315,
    w_w33_316: W33_316 = W33_316,
    w_w33_317: W33_317 = W33_317,
    w_w33_318: W33_318 = W33_318,
    w_w33_319: W33_319 = W33_319,
    w_w33_320: W33_320 = W33_320,
    w_w33_321: W33_321 = W33_321,
    w_w33_322: W33_322 = W33_322,
    w_w33_323: W33_323 = W33_323,
    w_w33_324: W33_324 = W33_324,
    w_w33_325: W33_325 = W33_325,
    w_w33_326: W33_326 = W33_326,
    w_w33_327: W33_327 = W33_327,
    w_w33_328: W33_328 = W33_328,
    w_w33_329: W33_329 = W33_329,
    w_w33_330: W33_330 = W33_330,
    w_w33_331: W33_331 = W33_331,
    w_w33_332: W33_332 = W33_332,
    w_w33_333: W33_333 = W33_333,
    w_w33_334: W33_334 = W33_334,
    w_w33_335: W33_335 = W33_335,
    w_w33_336: W33_336 = W33_336,
    w_w33_337: W33_337 = W33_337,
    w_w33_338: W33_338 = W33_338,
    w_w33_339: W33_339 = W33_339,
    w_w33_340: W33_340 = W33_340,
    w_w33_341: W33_341 = W33_341,
    w_w33_342: W33_342 = W33_342,
    w_w33_343: W33_343 = W33_343,
    w_w33_344: W33_344 = W33_344,
    w_w33_345: W33_345 = W33_345,
    w_w33_346: W33_346 = W33_346,
    w_w33_347: W33_347 = W33_347,
    w_w33_348: W33_348 = W33_348,
    w_w33_349: W33_349 = W33_349,
    w_w33_350: W33_350 = W33_350,
    w_w33_351: W33_351 = W33_351,
    w_w33_352: W33_352 = W33_352,
    w_w33_353: W33_353 = W33_353,
    w_w33_354: W33_354 = W33_354,
    w_w33_355: W33_355 = W33_355,
    w_w33_356: W33_356 = W33_356,
    w_w33_357: W33_357 = W33_357,
    w_w33_358: W33_358 = W33_358,
    w_w33_359: W33_359 = W33_359,
    w_w33_360: W33_360 = W33_360,
    w_w33_361: W33_361 = W33_361,
    w_w33_362: W33_362 = W33_362,
    w_w33_363: W33_363 = W33_363,
    w_w33_364: W33_364 = W33_364,
    w_w33_365: W33_365 = W33_365,
    w_w33_366: W33_366 = W33_366,
    w_w33_367: W33_367 = W33_367,
    w_w33_368: W33_368 = W33_368,
    w_w33_369: W33_369 = W33_369,
    w_w33_370: W33_370 = W33_370,
    w_w33_371: W33_371 = W33_371,
    w_w33_372: W33_372 = W33_372,
    w_w33_373: W33_373 = W33_373,
    w_w33_374: W33_374 = W33_374,
    w_w33_375: W33_375 = W33_375,
    w_w33_376: W33_376 = W33_376,
    w_w33_377: W33_377 = W33_377,
    w_w33_378: W33_378 = W33_378,
    w_w33_379: W33_379 = W33_379,
    w_w33_380: W33_380 = W33_380,
    w_w33_381: W33_381 = W33_381,
    w_w33_382: W33_382 = W33_382,
    w_w33_383: W33_383 = W33_383,
    w_w33_384: W33_384 = W33_384,
    w_w33_385: W33_385 = W33_385,
    w_w33_386: W33_386 = W33_386,
    w_w33_387: W33_387 = W33_387,
    w_w33_388: W33_388 = W33_388,
    w_w33_389: W33_389 = W33_389,
    w_w33_390: W33_390 = W33_390,
    w_w33_391: W33_391 = W33_391,
    w_w33_392: W33_392 = W33_392,
    w_w33_393: W33_393 = W33_393,
    w_w33_394: W33_394 = W33_394,
    w_w33_395: W33_395 = W33_395,
    w_w33_396: W33_396 = W33_396,
    w_w33_397: W33_397 = W33_397,
    w_w33_398: W33_398 = W33_398,
    w_w33_399: W33_399 = W33_399,
    w_w33_400: W33_400 = W33_400,
    w_w33_401: W33_401 = W33_401,
    w_w33_402: W33_402 = W33_402,
    w_w33_403: W33_403 = W33_403,
    w_w33_404: W33_404 = W33_404,
    w_w33_405: W33_405 = W33_405,
    w_w33_406: W33_406 = W33_406,
    w_w33_407: W33_407 = W33_407,
    w_w33_408: W33_408 = W33_408,
    w_w33_409: W33_409 = W33_409,
    w_w33_410: W33_410 = W33_410,
    w_w33_411: W33_411 = W33_411,
    w_w33_412: W33_412 = W33_412,
    w_w33_413: W33_413 = W33_413,
    w_w33_414: W33_414 = W33_414,
    w_w33_415: W33_415 = W33_415,
    w_w33_416: W33_416 = W33_416,
    w_w33_417: W33_417 = W33_417,
    w_w33_418: W33_418 = W33_418,
    w_w33_419: W33_419 = W33_419,
    w_w33_420: W33_420 = W33_420,
    w_w33_421: W33_421 = W33_421,
    w_w33_422: W33_422 = W33_422,
    w_w33_423: W33_423 = W33_423,
    w_w33_424: W33_424 = W33_424,
    w_w33_425: W33_425 = W33_425,
    w_w33_426: W33_426 = W33_426,
    w_w33_427: W33_427 = W33_427,
    w_w33_428: W33_428 = W33_428,
    w_w33_429: W33_429 = W33_429,
    w_w33_430: W33_430 = W33_430,
    w_w33_431: W33_431 = W33_431,
    w_w33_432: W33_432 = W33_432,
    w_w33_433: W33_433 = W33_433,
    w_w33_434: W33_434 = W33_434,
    w_w33_435: W33_435 = W33_435,
    w_w33_436: W33_436 = W33_436,
    w_w33_437: W33_437 = W33_437,
    w_w33_438: W33_438 = W33_438,
    w_w33_439: W33_439 = W33_439,
    w_w33_440: W33_440 = W33_440,
    w_w33_441: W33_441 = W33_441,
    w_w33_442: W33_442 = W33_442,
    w_w33_443: W33_443 = W33_443,
    w_w33_444: W33_444 = W33_444,
    w_w33_445: W33_445 = W33_445,
    w_w33_446: W33_446 = W33_446,
    w_w33_447: W33_447 = W33_447,
    w_w33_448: W33_448 = W33_448,
    w_w33_449: W33_449 = W33_449,
    w_w33_450: W33_450 = W33_450,
    w_w33_451: W33_451 = W33_451,
    w_w33_452: W33_452 = W33_452,
    w_w33_453: W33_453 = W33_453,
    w_w33_454: W33_454 = W33_454,
    w_w33_455: W33_455 = W33_455,
    w_w33_456: W33_456 = W33_456,
    w_w33_457: W33_457 = W33_457,
    w_w33_458: W33_458 = W33_458,
    w_w33_459: W33_459 = W33_459,
    w_w33_460: W33_460 = W33_460,
    w_w33_461: W33_461 = W33_461,
    w_w33_462: W33_462 = W33_462,
    w_w33_463: W33_463 = W33_463,
    w_w33_464: W33_464 = W33_464,
    w_w33_465: W33_465 = W33_465,
    w_w33_466: W33_466 = W33_466,
    w_w33_467: W33_467 = W33_467,
    w_w33_468: W33_468 = W33_468,
    w_w33_469: W33_469 = W33_469,
    w_w33_470: W33_470 = W33_470,
    w_w33_471: W33_471 = W33_471,
    w_w33_472: W33_472 = W33_472,
    w_w33_473: W33_473 = W33_473,
    w_w33_474: W33_474 = W33_474,
    w_w33_475: W33_475 = W33_475,
    w_w33_476: W33_476 = W33_476,
    w_w33_477: W33_477 = W33_477,
    w_w33_478: W33_478 = W33_478,
    w_w33_479: W33_479 = W33_479,
    w_w33_480: W33_480 = W33_480,
    w_w33_481: W33_481 = W33_481,
    w_w33_482: W33_482 = W33_482,
    w_w33_483: W33_483 = W33_483,
    w_w33_484: W33_484 = W33_484,
    w_w33_485: W33_485 = W33_485,
    w_w33_486: W33_486 = W33_486,
    w_w33_487: W33_487 = W33_487,
    w_w33_488: W33_488 = W33_488,
    w_w33_489: W33_489 = W33_489,
    w_w33_490: W33_490 = W33_490,
    w_w33_491: W33_491 = W33_491,
    w_w33_492: W33_492 = W33_492,
    w_w33_493: W33_493 = W33_493,
    w_w33_494: W33_494 = W33_494,
    w_w33_495: W33_495 = W33_495,
    w_w33_496: W33_496 = W33_496,
    w_w33_497: W33_497 = W33_497,
    w_w33_498: W33_498 = W33_498,
    w_w33_499: W33_499 = W33_499,
    w_w33_500: W33_500 = W33_500,
    w_w33_501: W33_501 = W33_501,
    w_w33_502: W33_502 = W33_502,
    w_w33_503: W33_503 = W33_503,
    w_w33_504: W33_504 = W33_504,
    w_w33_505: W33_505 = W33_505,
    w_w33_506: W33_506 = W33_506,
    w_w33_507: W33_507 = W33_507,
    w_w33_508: W33_508 = W33_508,
    w_w33_509: W33_509 = W33_509,
    w_w33_510: W33_510 = W33_510,
    w_w33_511: W33_511 = W33_511,
    w_w33_512: W33_512 = W33_512,
    w_w33_513: W33_513 = W33_513,
    w_w33_514: W33_514 = W33_514,
    w_w33_515: W33_515 = W33_515,
    w_w33_516: W33_516 = W33_516,
    w_w33_517: W33_517 = W33_517,
    w_w34_1: W34_1 = W34_1,
    w_w34_2: W34_2 = W34_2,
    w_w34_3: W34_3 = W34_3,
    w_w34_4: W34_4 = W34_4,
    w_w34_5: W34_5 = W34_5,
    w_w34_6: W34_6 = W34_6,
    w_w34_7: W34_7 = W34_7,
    w_w34_8: W34_8 = W34_8,
    w_w34_9: W34_9 = W34_9,
    w_w34_10: W34_10 = W34_10,
    w_w34_11: W34_11 = W34_11,
    w_w34_12: W34_12 = W34_12,
    w_w34_13: W34_13 = W34_13,
    w_w34_14: W34_14 = W34_14,
    w_w34_15: W34_15 = W34_15,
    w_w34_16: W34_16 = W34_16,
    w_w34_17: W34_17 = W34_17,
    w_w34_18: W34_18 = W34_18,
    w_w34_19: W34_19 = W34_19,
    w_w34_20: W34_20 = W34_20,
    w_w34_21: W34_21 = W34_21,
    w_w34_22: W34_22 = W34_22,
    w_w34_23: W34_23 = W34_23,
    w_w34_24: W34_24 = W34_24,
    w_w34_25: W34_25 = W34_25,
    w_w34_26: W34_26 = W34_26,
    w_w34_27: W34_27 = W34_27,
    w_w34_28: W34_28 = W34_28,
    w_w34_29: W34_29 = W34_29,
    w_w34_30: W34_30 = W34_30,
    w_w34_31: W34_31 = W34_31,
    w_w34_32: W34_32 = W34_32,
    w_w34_33: W34_33 = W34_33,
    w_w34_34: W34_34 = W34_34,
    w_w34_35: W34_35 = W34_35,
    w_w34_36: W34_36 = W34_36,
    w_w34_37: W34_37 = W34_37,
    w_w34_38: W34_38 = W34_38,
    w_w34_39: W34_39 = W34_39,
    w_w34_40: W34_40 = W34_40,
    w_w34_41: W34_41 = W34_41,
    w_w34_42: W34_42 = W34_42,
    w_w34_43: W34_43 = W34_43,
    w_w34_44: W34_44 = W34_44,
    w_w34_45: W34_45 = W34_45,
    w_w34_46: W34_46 = W34_46,
    w_w34_47: W34_47 = W34_47,
    w_w34_48: W34_48 = W34_48,
    w_w34_49: W34_49 = W34_49,
    w_w34_50: W34_50 = W34_50,
    w_w34_51: W34_51 = W34_51,
    w_w34_52: W34_52 = W34_52,
    w_w34_53: W34_53 = W34_53,
    w_w34_54: W34_54 = W34_54,
    w_w34_55: W34_55 = W34_55,
    w_w34_56: W34_56 = W34_56,
    w_w34_57: W34_57 = W34_57,
    w_w34_58: W34_58 = W34_58,
    w_w34_59: W34_59 = W34_59,
    w_w34_60: W34_60 = W34_60,
    w_w34_61: W34_61 = W34_61,
    w_w34_62: W34_62 = W34_62,
    w_w34_63: W34_63 = W34_63,
    w_w34_64: W34_64 = W34_64,
    w_w34_65: W34_65 = W34_65,
    w_w34_66: W34_66 = W34_66,
    w_w34_67: W34_67 = W34_67,
    w_w34_68: W34_68 = W34_68,
    w_w34_69: W34_69 = W34_69,
    w_w34_70: W34_70 = W34_70,
    w_w34_71: W34_71 = W34_71,
    w_w34_72: W34_72 = W34_72,
    w_w34_73: W34_73 = W34_73,
    w_w34_74: W34_74 = W34_74,
    w_w34_75: W34_75 = W34_75,
    w_w34_76: W34_76 = W34_76,
    w_w34_77: W34_77 = W34_77,
    w_w34_78: W34_78 = W34_78,
    w_w34_79: W34_79 = W34_79,
    w_w34_80: W34_80 = W34_80,
    w_w34_81: W34_81 = W34_81,
    w_w34_82: W34_82 = W34_82,
    w_w34_83: W34_83 = W34_83,
    w_w34_84: W34_84 = W34_84,
    w_w34_85: W34_85 = W34_85,
    w_w34_86: W34_86 = W34_86,
    w_w34_87: W34_87 = W34_87,
    w_w34_88: W34_88 = W34_88,
    w_w34_89: W34_89 = W34_89,
    w_w34_90: W34_90 = W34_90,
    w_w34_91: W34_91 = W34_91,
    w_w34_92: W34_92 = W34_92,
    w_w34_93: W34_93 = W34_93,
    w_w34_94: W34_94 = W34_94,
    w_w34_95: W34_95 = W34_95,
    w_w34_96: W34_96 = W34_96,
    w_w34_97: W34_97 = W34_97,
    w_w34_98: W34_98 = W34_98,
    w_w34_99: W34_99 = W34_99,
    w_w34_100: W34_100 = W34_100,
    w_w34_101: W34_101 = W34_101,
    w_w34_102: W34_102 = W34_102,
    w_w34_103: W34_103 = W34_103,
    w_w34_104: W34_104 = W34_104,
    w_w34_105: W34_105 = W34_105,
    w_w34_106: W34_106 = W34_106,
    w_w34_107: W34_107 = W34_107,
    w_w34_108: W34_108 = W34_108,
    w_w34_109: W34_109 = W34_109,
    w_w34_110: W34_110 = W34_110,
    w_w34_111: W34_111 = W34_111,
    w_w34_112: W34_112 = W34_112,
    w_w34_113: W34_113 = W34_113,
    w_w34_114: W34_114 = W34_114,
    w_w34_115: W34_115 = W34_115,
    w_w34_116: W34_116 = W34_116,
    w_w34_117: W34_117 = W34_117,
    w_w34_118: W34_118 = W34_118,
    w_w34_119: W34_119 = W34_119,
    w_w34_120: W34_120 = W34_120,
    w_w34_121: W34_121 = W34_121,
    w_w34_122: W34_122 = W34_122,
    w_w34_123: W34_123 = W34_123,
    w_w34_124: W34_124 = W34_124,
    w_w34_125: W34_125 = W34_125,
    w_w34_126: W34_126 = W34_126,
    w_w34_127: W34_127 = W34_127,
    w_w34_128: W34_128 = W34_128,
    w_w34_129: W34_129 = W34_129,
    w_w34_130: W34_130 = W34_130,
    w_w34_131: W34_131 = W34_131,
    w_w34_132: W34_132 = W34_132,
    w_w34_133: W34_133 = W34_133,
    w_w34_134: W34_134 = W34_134,
    w_w34_135: W34_135 = W34_135,
    w_w34_136: W34_136 = W34_136,
    w_w34_137: W34_137 = W34_137,
    w_w34_138: W34_138 = W34_138,
    w_w34_139: W34_139 = W34_139,
    w_w34_140: W34_140 = W34_140,
    w_w34_141: W34_141 = W34_141,
    w_w34_142: W34_142 = W34_142,
    w_w34_143: W34_143 = W34_143,
    w_w34_144: W34_144 = W34_144,
    w_w34_145: W34_145 = W34_145,
    w_w34_146: W34_146 = W34_146,
    w_w34_147: W34_147 = W34_147,
    w_w34_148: W34_148 = W34_148,
    w_w34_149: W34_149 = W34_149,
    w_w34_150: W34_150 = W34_150,
    w_w34_151: W34_151 = W34_151,
    w_w34_152: W34_152 = W34_152,
    w_w34_153: W34_153 = W34_153,
    w_w34_154: W34_154 = W34_154,
    w_w34_155: W34_155 = W34_155,
    w_w34_156: W34_156 = W34_156,
    w_w34_157: W34_157 = W34_157,
    w_w34_158: W34_158 = W34_158,
    w_w34_159: W34_159 = W34_159,
    w_w34_160: W34_160 = W34_160,
    w_w34_161: W34_161 = W34_161,
    w_w34_162: W34_162 = W34_162,
    w_w34_163: W34_163 = W34_163,
    w_w34_164: W34_164 = W34_164,
    w_w34_165: W34_165 = W34_165,
    w_w34_166: W34_166 = W34_166,
    w_w34_167: W34_167 = W34_167,
    w_w34_168: W34_168 = W34_168,
    w_w34_169: W34_169 = W34_169,
    w_w34_170: W34_170 = W34_170,
    w_w34_171: W34_171 = W34_171,
    w_w34_172: W34_172 = W34_172,
    w_w34_173: W34_173 = W34_173,
    w_w34_174: W34_174 = W34_174,
    w_w34_175: W34_175 = W34_175,
    w_w34_176: W34_176 = W34_176,
    w_w34_177: W34_177 = W34_177,
    w_w34_178: W34_178 = W34_178,
    w_w34_179: W34_179 = W34_179,
    w_w34_180: W34_180 = W34_180,
    w_w34_181: W34_181 = W34_181,
    w_w34_182: W34_182 = W34_182,
    w_w34_183: W34_183 = W34_183,
    w_w34_184: W34_184 = W34_184,
    w_w34_185: W34_185 = W34_185,
    w_w34_186: W34_186 = W34_186,
    w_w34_187: W34_187 = W34_187,
    w_w34_188: W34_188 = W34_188,
    w_w34_189: W34_189 = W34_189,
    w_w34_190: W34_190 = W34_190,
    w_w34_191: W34_191 = W34_191,
    w_w34_192: W34_192 = W34_192,
    w_w34_193: W34_193 = W34_193,
    w_w34_194: W34_194 = W34_194,
    w_w34_195: W34_195 = W34_195,
    w_w34_196: W34_196 = W34_196,
    w_w34_197: W34_197 = W34_197,
    w_w34_198: W34_198 = W34_198,
    w_w34_199: W34_199 = W34_199,
    w_w34_200: W34_200 = W34_200,
    w_w34_201: W34_201 = W34_201,
    w_w34_202: W34_202 = W34_202,
    w_w34_203: W34_203 = W34_203,
    w_w34_204: W34_204 = W34_204,
    w_w34_205: W34_205 = W34_205,
    w_w34_206: W34_206 = W34_206,
    w_w34_207: W34_207 = W34_207,
    w_w34_208: W34_208 = W34_208,
    w_w34_209: W34_209 = W34_209,
    w_w34_210: W34_210 = W34_210,
    w_w34_211: W34_211 = W34_211,
    w_w34_212: W34_212 = W34_212,
    w_w34_213: W34_213 = W34_213,
    w_w34_214: W34_214 = W34_214,
    w_w34_215: W34_215 = W34_215,
    w_w34_216: W34_216 = W34_216,
    w_w34_217: W34_217 = W34_217,
    w_w34_218: W34_218 = W34_218,
    w_w34_219: W34_219 = W34_219,
    w_w34_220: W34_220 = W34_220,
    w_w34_221: W34_221 = W34_221,
    w_w34_222: W34_222 = W34_222,
    w_w34_223: W34_223 = W34_223,
    w_w34_224: W34_224 = W34_224,
    w_w34_225: W34_225 = W34_225,
    w_w34_226: W34_226 = W34_226,
    w_w34_227: W34_227 = W34_227,
    w_w34_228: W34_228 = W34_228,
    w_w34_229: W34_229 = W34_229,
    w_w34_230: W34_230 = W34_230,
    w_w34_231: W34_231 = W34_231,
    w_w34_232: W34_232 = W34_232,
    w_w34_233: W34_233 = W34_233,
    w_w34_234: W34_234 = W34_234,
    w_w34_235: W34_235 = W34_235,
    w_w34_236: W34_236 = W34_236,
    w_w34_237: W34_237 = W34_237,
    w_w34_238: W34_238 = W34_238,
    w_w34_239: W34_239 = W34_239,
    w_w34_240: W34_240 = W34_240,
    w_w34_241: W34_241 = W34_241,
    w_w34_242: W34_242 = W34_242,
    w_w34_243: W34_243 = W34_243,
    w_w34_244: W34_244 = W34_244,
    w_w34_245: W34_245 = W34_245,
    w_w34_246: W34_246 = W34_246,
    w_w34_247: W34_247 = W34_247,
    w_w34_248: W34_248 = W34_248,
    w_w34_249: W34_249 = W34_249,
    w_w34_250: W34_250 = W34_250,
    w_w34_251: W34_251 = W34_251,
    w_w34_252: W34_252 = W34_252,
    w_w34_253: W34_253 = W34_253,
    w_w34_254: W34_254 = W34_254,
    w_w34_255: W34_255 = W34_255,
    w_w34_256: W34_256 = W34_256,
    w_w34_257: W34_257 = W34_257,
    w_w34_258: W34_258 = W34_258,
    w_w34_259: W34_259 = W34_259,
    w_w34_260: W34_260 = W34_260,
    w_w34_261: W34_261 = W34_261,
    w_w34_262: W34_262 = W34_262,
    w_w34_263: W34_263 = W34_263,
    w_w34_264: W34_264 = W34_264,
    w_w34_265: W34_265 = W34_265,
    w_w34_266: W34_266 = W34_266,
    w_w34_267: W34_267 = W34_267,
    w_w34_268: W34_268 = W34_268,
    w_w34_269: W34_269 = W34_269,
    w_w34_270: W34_270 = W34_270,
    w_w34_271: W34_271 = W34_271,
    w_w34_272: W34_272 = W34_272,
    w_w34_273: W34_273 = W34_273,
    w_w34_274: W34_274 = W34_274,
    w_w34_275: W34_275 = W34_275,
    w_w34_276: W34_276 = W34_276,
    w_w34_277: W34_277 = W34_277,
    w_w34_278: W34_278 = W34_278,
    w_w34_279: W34_279 = W34_279,
    w_w34_280: W34_280 = W34_280,
    w_w34_281: W34_281 = W34_281,
    w_w34_282: W34_282 = W34_282,
    w_w34_283: W34_283 = W34_283,
    w_w34_284: W34_284 = W34_284,
    w_w34_285: W34_285 = W34_285,
    w_w34_286: W34_286 = W34_286,
    w_w34_287: W34_287 = W34_287,
    w_w34_288: W34_288 = W34_288,
    w_w34_289: W34_289 = W34_289,
    w_w34_290: W34_290 = W34_290,
    w_w34_291: W34_291 = W34_291,
    w_w34_292: W34_292 = W34_292,
    w_w34_293: W34_293 = W34_293,
    w_w34_294: W34_294 = W34_294,
    w_w34_295: W34_295 = W34_295,
    w_w34_296: W34_296 = W34_296,
    w_w34_297: W34_297 = W34_297,
    w_w34_298: W34_298 = W34_298,
    w_w34_299: W34_299 = W34_299,
    w_w34_300: W34_300 = W34_300,
    w_w34_301: W34_301 = W34_301,
    w_w34_302: W34_302 = W34_302,
    w_w34_303: W34_303 = W34_303,
    w_w34_304: W34_304 = W34_304,
    w_w34_305: W34_305 = W34_305,
    w_w34_306: W34_306 = W34_306,
    w_w34_307: W34_307 = W34_307,
    w_w34_308: W34_308 = W34_308,
    w_w34_309: W34_309 = W34_309,
    w_w34_310: W34_310 = W34_310,
    w_w34_311: W34_311 = W34_311,
    w_w34_312: W34_312 = W34_312,
    w_w34_313: W34_313 = W34_313,
    w_w34_314: W34_314 = W34_314,
    w_w34_315: W34_315 = W34_315,
    w_w34_316: W34_316 = W34_316,
    w_w34_317: W34_317 = W34_317,
    w_w34_318: W34_318 = W34_318,
    w_w34_319: W34_319 = W34_319,
    w_w34_320: W34_320 = W34_320,
    w_w34_321: W34_321 = W34_321,
    w_w34_322: W34_322 = W34_322,
    w_w34_323: W34_323 = W34_323,
    w_w34_324: W34_324 = W34_324,
    w_w34_325: W34_325 = W34_325,
    w_w34_326: W34_326 = W34_326,
    w_w34_327: W34_327 = W34_327,
    w_w34_328: W34_328 = W34_328,
    w_w34_329: W34_329 = W34_329,
    w_w34_330: W34_330 = W34_330,
    w_w34_331: W34_331 = W34_331,
    w_w34_332: W34_332 = W34_332,
    w_w34_333: W34_333 = W34_333,
    w_w34_334: W34_334 = W34_334,
    w_w34_335: W34_335 = W34_335,
    w_w34_336: W34_336 = W34_336,
    w_w34_337: W34_337 = W34_337,
    w_w34_338: W34_338 = W34_338,
    w_w34_339: W34_339 = W34_339,
    w_w34_340: W34_340 = W34_340,
    w_w34_341: W34_341 = W34_341,
    w_w34_342: W34_342 = W34_342,
    w_w34_343: W34_343 = W34_343,
    w_w34_344: W34_344 = W34_344,
    w_w34_345: W34_345 = W34_345,
    w_w34_346: W34_346 = W34_346,
    w_w34_347: W34_347 = W34_347,
    w_w34_348: W34_348 = W34_348,
    w_w34_349: W34_349 = W34_349,
    w_w34_350: W34_350 = W34_350,
    w_w34_351: W34_351 = W34_351,
    w_w34_352: W34_352 = W34_352,
    w_w34_353: W34_353 = W34_353,
    w_w34_354: W34_354 = W34_354,
    w_w34_355: W34_355 = W34_355,
    w_w34_356: W34_356 = W34_356,
    w_w34_357: W34_357 = W34_357,
    w_w34_358: W34_358 = W34_358,
    w_w34_359: W34_359 = W34_359,
    w_w34_360: W34_360 = W34_360,
    w_w34_361: W34_361 = W34_361,
    w_w34_362: W34_362 = W34_362,
    w_w34_363: W34_363 = W34_363,
    w_w34_364: W34_364 = W34_364,
    w_w34_365: W34_365 = W34_365,
    w_w34_366: W34_366 = W34_366,
    w_w34_367: W34_367 = W34_367,
    w_w34_368: W34_368 = W34_368,
    w_w34_369: W34_369 = W34_369,
    w_w34_370: W34_370 = W34_370,
    w_w34_371: W34_371 = W34_371,
    w_w34_372: W34_372 = W34_372,
    w_w34_373: W34_373 = W34_373,
    w_w34_374: W34_374 = W34_374,
    w_w34_375: W34_375 = W34_375,
    w_w34_376: W34_376 = W34_376,
    w_w34_377: W34_377 = W34_377,
    w_w34_378: W34_378 = W34_378,
    w_w34_379: W34_379 = W34_379,
    w_w34_380: W34_380 = W34_380,
    w_w34_381: W34_381 = W34_381,
    w_w34_382: W34_382 = W34_382,
    w_w34_383: W34_383 = W34_383,
    w_w34_384: W34_384 = W34_384,
    w_w34_385: W34_385 = W34_385,
    w_w34_386: W34_386 = W34_386,
    w_w34_387: W34_387 = W34_387,
    w_w34_388: W34_388 = W34_388,
    w_w34_389: W34_389 = W34_389,
    w_w34_390: W34_390 = W34_390,
    w_w34_391: W34_391 = W34_391,
    w_w34_392: W34_392 = W34_392,
    w_w34_393: W34_393 = W34_393,
    w_w34_394: W34_394 = W34_394,
    w_w34_395: W34_395 = W34_395,
    w_w34_396: W34_396 = W34_396,
    w_w34_397: W34_397 = W34_397,
    w_w34_398: W34_398 = W34_398,
    w_w34_399: W34_399 = W34_399,
    w_w34_400: W34_400 = W34_400,
    w_w34_401: W34_401 = W34_401,
    w_w34_402: W34_402 = W34_402,
    w_w34_403: W34_403 = W34_403,
    w_w34_404: W34_404 = W34_404,
    w_w34_405: W34_405 = W34_405,
    w_w34_406: W34_406 = W34_406,
    w_w34_407: W34_407 = W34_407,
    w_w34_408: W34_408 = W34_408,
    w_w34_409: W34_409 = W34_409,
    w_w34_410: W34_410 = W34_410,
    w_w34_411: W34_411 = W34_411,
    w_w35_1: W35_1 = W35_1,
    w_w35_2: W35_2 = W35_2,
    w_w35_3: W35_3 = W35_3,
    w_w35_4: W35_4 = W35_4,
    w_w35_5: W35_5 = W35_5,
    w_w35_6: W35_6 = W35_6,
    w_w35_7: W35_7 = W35_7,
    w_w35_8: W35_8 = W35_8,
    w_w35_9: W35_9 = W35_9,
    w_w35_10: W35_10 = W35_10,
    w_w35_11: W35_11 = W35_11,
    w_w35_12: W35_12 = W35_12,
    w_w35_13: W35_13 = W35_13,
    w_w35_14: W35_14 = W35_14,
    w_w35_15: W35_15 = W35_15,
    w_w35_16: W35_16 = W35_16,
    w_w35_17: W35_17 = W35_17,
    w_w35_18: W35_18 = W35_18,
    w_w35_19: W35_19 = W35_19,
    w_w35_20: W35_20 = W35_20,
    w_w35_21: W35_21 = W35_21,
    w_w35_22: W35_22 = W35_22,
    w_w35_23: W35_23 = W35_23,
    w_w35_24: W35_24 = W35_24,
    w_w35_25: W35_25 = W35_25,
    w_w35_26: W35_26 = W35_26,
    w_w35_27: W35_27 = W35_27,
    w_w35_28: W35_28 = W35_28,
    w_w35_29: W35_29 = W35_29,
    w_w35_30: W35_30 = W35_30,
    w_w35_31: W35_31 = W35_31,
    w_w35_32: W35_32 = W35_32,
    w_w35_33: W35_33 = W35_33,
    w_w35_34: W35_34 = W35_34,
    w_w35_35: W35_35 = W35_35,
    w_w35_36: W35_36 = W35_36,
    w_w35_37: W35_37 = W35_37,
    w_w35_38: W35_38 = W35_38,
    w_w35_39: W35_39 = W35_39,
    w_w35_40: W35_40 = W35_40,
    w_w35_41: W35_41 = W35_41,
    w_w35_42: W35_42 = W35_42,
    w_w35_43: W35_43 = W35_43,
    w_w35_44: W35_44 = W35_44,
    w_w35_45: W35_45 = W35_45,
    w_w35_46: W35_46 = W35_46,
    w_w35_47: W35_47 = W35_47,
    w_w35_48: W35_48 = W35_48,
    w_w35_49: W35_49 = W35_49,
    w_w35_50: W35_50 = W35_50,
    w_w35_51: W35_51 = W35_51,
    w_w35_52: W35_52 = W35_52,
    w_w35_53: W35_53 = W35_53,
    w_w35_54: W35_54 = W35_54,
    w_w35_55: W35_55 = W35_55,
    w_w35_56: W35_56 = W35_56,
    w_w35_57: W35_57 = W35_57,
    w_w35_58: W35_58 = W35_58,
    w_w35_59: W35_59 = W35_59,
    w_w35_60: W35_60 = W35_60,
    w_w35_61: W35_61 = W35_61,
    w_w35_62: W35_62 = W35_62,
    w_w35_63: W35_63 = W35_63,
    w_w35_64: W35_64 = W35_64,
    w_w35_65: W35_65 = W35_65,
    w_w35_66: W35_66 = W35_66,
    w_w35_67: W35_67 = W35_67,
    w_w35_68: W35_68 = W35_68,
    w_w35_69: W35_69 = W35_69,
    w_w35_70: W35_70 = W35_70,
    w_w35_71: W35_71 = W35_71,
    w_w35_72: W35_72 = W35_72,
    w_w35_73: W35_73 = W35_73,
    w_w35_74: W35_74 = W35_74,
    w_w35_75: W35_75 = W35_75,
    w_w35_76: W35_76 = W35_76,
    w_w35_77: W35_77 = W35_77,
    w_w35_78: W35_78 = W35_78,
    w_w35_79: W35_79 = W35_79,
    w_w35_80: W35_80 = W35_80,
    w_w35_81: W35_81 = W35_81,
    w_w35_82: W35_82 = W35_82,
    w_w35_83: W35_83 = W35_83,
    w_w35_84: W35_84 = W35_84,
    w_w35_85: W35_85 = W35_85,
    w_w35_86: W35_86 = W35_86,
    w_w35_87: W35_87 = W35_87,
    w_w35_88: W35_88 = W35_88,
    w_w35_89: W35_89 = W35_89,
    w_w35_90: W35_90 = W35_90,
    w_w35_91: W35_91 = W35_91,
    w_w35_92: W35_92 = W35_92,
    w_w35_93: W35_93 = W35_93,
    w_w35_94: W35_94 = W35_94,
    w_w35_95: W35_95 = W35_95,
    w_w35_96: W35_96 = W35_96,
    w_w35_97: W35_97 = W35_97,
    w_w35_98: W35_98 = W35_98,
    w_w35_99: W35_99 = W35_99,
    w_w35_100: W35_100 = W35_100,
    w_w35_101: W35_101 = W35_101,
    w_w35_102: W35_102 = W35_102,
    w_w35_103: W35_103 = W35_103,
    w_w35_104: W35_104 = W35_104,
    w_w35_105: W35_105 = W35_105,
    w_w35_106: W35_106 = W35_106,
    w_w35_107: W35_107 = W35_107,
    w_w35_108: W35_108 = W35_108,
    w_w35_109: W35_109 = W35_109,
    w_w35_110: W35_110 = W35_110,
    w_w35_111: W35_111 = W35_111,
    w_w35_112: W35_112 = W35_112,
    w_w35_113: W35_113 = W35_113,
    w_w35_114: W35_114 = W35_114,
    w_w35_115: W35_115 = W35_115,
    w_w35_116: W35_116 = W35_116,
    w_w35_117: W35_117 = W35_117,
    w_w35_118: W35_118 = W35_118,
    w_w35_119: W35_119 = W35_119,
    w_w35_120: W35_120 = W35_120,
    w_w35_121: W35_121 = W35_121,
    w_w35_122: W35_122 = W35_122,
    w_w35_123: W35_123 = W35_123,
    w_w35_124: W35_124 = W35_124,
    w_w35_125: W35_125 = W35_125,
    w_w35_126: W35_126 = W35_126,
    w_w35_127: W35_127 = W35_127,
    w_w35_128: W35_128 = W35_128,
    w_w35_129: W35_129 = W35_129,
    w_w35_130: W35_130 = W35_130,
    w_w35_131: W35_131 = W35_131,
    w_w35_132: W35_132 = W35_132,
    w_w35_133: W35_133 = W35_133,
    w_w35_134: W35_134 = W35_134,
    w_w35_135: W35_135 = W35_135,
    w_w35_136: W35_136 = W35_136,
    w_w35_137: W35_137 = W35_137,
    w_w35_138: W35_138 = W35_138,
    w_w35_139: W35_139 = W35_139,
    w_w35_140: W35_140 = W35_140,
    w_w35_141: W35_141 = W35_141,
    w_w35_142: W35_142 = W35_142,
    w_w35_143: W35_143 = W35_143,
    w_w35_144: W35_144 = W35_144,
    w_w35_145: W35_145 = W35_145,
    w_w35_146: W35_146 = W35_146,
    w_w35_147: W35_147 = W35_147,
    w_w35_148: W35_148 = W35_148,
    w_w35_149: W35_149 = W35_149,
    w_w35_150: W35_150 = W35_150,
    w_w35_151: W35_151 = W35_151,
    w_w35_152: W35_152 = W35_152,
    w_w35_153: W35_153 = W35_153,
    w_w35_154: W35_154 = W35_154,
    w_w35_155: W35_155 = W35_155,
    w_w35_156: W35_156 = W35_156,
    w_w35_157: W35_157 = W35_157,
    w_w35_158: W35_158 = W35_158,
    w_w35_159: W35_159 = W35_159,
    w_w35_160: W35_160 = W35_160,
    w_w35_161: W35_161 = W35_161,
    w_w35_162: W35_162 = W35_162,
    w_w35_163: W35_163 = W35_163,
    w_w35_164: W35_164 = W35_164,
    w_w35_165: W35_165 = W35_165,
    w_w35_166: W35_166 = W35_166,
    w_w35_167: W35_167 = W35_167,
    w_w35_168: W35_168 = W35_168,
    w_w35_169: W35_169 = W35_169,
    w_w35_170: W35_170 = W35_170,
    w_w35_171: W35_171 = W35_171,
    w_w35_172: W35_172 = W35_172,
    w_w35_173: W35_173 = W35_173,
    w_w35_174: W35_174 = W35_174,
    w_w35_175: W35_175 = W35_175,
    w_w35_176: W35_176 = W35_176,
    w_w35_177: W35_177 = W35_177,
    w_w35_178: W35_178 = W35_178,
    w_w35_179: W35_179 = W35_179,
    w_w35_180: W35_180 = W35_180,
    w_w35_181: W35_181 = W35_181,
    w_w35_182: W35_182 = W35_182,
    w_w36_1: W36_1 = W36_1,
    w_w36_2: W36_2 = W36_2,
    w_w36_3: W36_3 = W36_3,
    w_w36_4: W36_4 = W36_4,
    w_w36_5: W36_5 = W36_5,
    w_w36_6: W36_6 = W36_6,
    w_w36_7: W36_7 = W36_7,
    w_w36_8: W36_8 = W36_8,
    w_w36_9: W36_9 = W36_9,
    w_w36_10: W36_10 = W36_10,
    w_w36_11: W36_11 = W36_11,
    w_w36_12: W36_12 = W36_12,
    w_w36_13: W36_13 = W36_13,
    w_w36_14: W36_14 = W36_14,
    w_w36_15: W36_15 = W36_15,
    w_w36_16: W36_16 = W36_16,
    w_w36_17: W36_17 = W36_17,
    w_w36_18: W36_18 = W36_18,
    w_w36_19: W36_19 = W36_19,
    w_w36_20: W36_20 = W36_20,
    w_w36_21: W36_21 = W36_21,
    w_w36_22: W36_22 = W36_22,
    w_w36_23: W36_23 = W36_23,
    w_w36_24: W36_24 = W36_24,
    w_w36_25: W36_25 = W36_25,
    w_w36_26: W36_26 = W36_26,
    w_w36_27: W36_27 = W36_27,
    w_w36_28: W36_28 = W36_28,
    w_w36_29: W36_29 = W36_29,
    w_w36_30: W36_30 = W36_30,
    w_w36_31: W36_31 = W36_31,
    w_w36_32: W36_32 = W36_32,
    w_w36_33: W36_33 = W36_33,
    w_w36_34: W36_34 = W36_34,
    w_w36_35: W36_35 = W36_35,
    w_w36_36: W36_36 = W36_36,
    w_w36_37: W36_37 = W36_37,
    w_w36_38: W36_38 = W36_38,
    w_w36_39: W36_39 = W36_39,
    w_w36_40: W36_40 = W36_40,
    w_w36_41: W36_41 = W36_41,
    w_w36_42: W36_42 = W36_42,
    w_w36_43: W36_43 = W36_43,
    w_w36_44: W36_44 = W36_44,
    w_w36_45: W36_45 = W36_45,
    w_w36_46: W36_46 = W36_46,
    w_w36_47: W36_47 = W36_47,
    w_w36_48: W36_48 = W36_48,
    w_w36_49: W36_49 = W36_49,
    w_w36_50: W36_50 = W36_50,
    w_w36_51: W36_51 = W36_51,
    w_w36_52: W36_52 = W36_52,
    w_w36_53: W36_53 = W36_53,
    w_w36_54: W36_54 = W36_54,
    w_w36_55: W36_55 = W36_55,
    w_w36_56: W36_56 = W36_56,
    w_w36_57: W36_57 = W36_57,
    w_w36_58: W36_58 = W36_58,
    w_w36_59: W36_59 = W36_59,
    w_w36_60: W36_60 = W36_60,
    w_w36_61: W36_61 = W36_61,
    w_w36_62: W36_62 = W36_62,
    w_w36_63: W36_63 = W36_63,
    w_w36_64: W36_64 = W36_64,
    w_w36_65: W36_65 = W36_65,
    w_w36_66: W36_66 = W36_66,
    w_w36_67: W36_67 = W36_67,
    w_w36_68: W36_68 = W36_68,
    w_w36_69: W36_69 = W36_69,
    w_w36_70: W36_70 = W36_70,
    w_w36_71: W36_71 = W36_71,
    w_w36_72: W36_72 = W36_72,
    w_w36_73: W36_73 = W36_73,
    w_w36_74: W36_74 = W36_74,
    w_w36_75: W36_75 = W36_75,
    w_w36_76: W36_76 = W36_76,
    w_w36_77: W36_77 = W36_77,
    w_w36_78: W36_78 = W36_78,
    w_w36_79: W36_79 = W36_79,
    w_w36_80: W36_80 = W36_80,
    w_w36_81: W36_81 = W36_81,
    w_w36_82: W36_82 = W36_82,
    w_w36_83: W36_83 = W36_83,
    w_w36_84: W36_84 = W36_84,
    w_w36_85: W36_85 = W36_85,
    w_w36_86: W36_86 = W36_86,
    w_w36_87: W36_87 = W36_87,
    w_w36_88: W36_88 = W36_88,
    w_w36_89: W36_89 = W36_89,
    w_w36_90: W36_90 = W36_90,
    w_w36_91: W36_91 = W36_91,
    w_w36_92: W36_92 = W36_92,
    w_w36_93: W36_93 = W36_93,
    w_w36_94: W36_94 = W36_94,
    w_w36_95: W36_95 = W36_95,
    w_w36_96: W36_96 = W36_96,
    w_w36_97: W36_97 = W36_97,
    w_w36_98: W36_98 = W36_98,
    w_w36_99: W36_99 = W36_99,
    w_w36_100: W36_100 = W36_100,
    w_w36_101: W36_101 = W36_101,
    w_w36_102: W36_102 = W36_102,
    w_w36_103: W36_103 = W36_103,
    w_w36_104: W36_104 = W36_104,
    w_w36_105: W36_105 = W36_105,
    w_w36_106: W36_106 = W36_106,
    w_w36_107: W36_107 = W36_107,
    w_w36_108: W36_108 = W36_108,
    w_w36_109: W36_109 = W36_109,
    w_w36_110: W36_110 = W36_110,
    w_w36_111: W36_111 = W36_111,
    w_w36_112: W36_112 = W36_112,
    w_w36_113: W36_113 = W36_113,
    w_w36_114: W36_114 = W36_114,
    w_w36_115: W36_115 = W36_115,
    w_w36_116: W36_116 = W36_116,
    w_w36_117: W36_117 = W36_117,
    w_w36_118: W36_118 = W36_118,
    w_w36_119: W36_119 = W36_119,
    w_w36_120: W36_120 = W36_120,
    w_w36_121: W36_121 = W36_121,
    w_w36_122: W36_122 = W36_122,
    w_w36_123: W36_123 = W36_123,
    w_w36_124: W36_124 = W36_124,
    w_w36_125: W36_125 = W36_125,
    w_w36_126: W36_126 = W36_126,
    w_w36_127: W36_127 = W36_127,
    w_w36_128: W36_128 = W36_128,
    w_w36_129: W36_129 = W36_129,
    w_w36_130: W36_130 = W36_130,
    w_w36_131: W36_131 = W36_131,
    w_w36_132: W36_132 = W36_132,
    w_w36_133: W36_133 = W36_133,
    w_w36_134: W36_134 = W36_134,
    w_w36_135: W36_135 = W36_135,
    w_w36_136: W36_136 = W36_136,
    w_w36_137: W36_137 = W36_137,
    w_w36_138: W36_138 = W36_138,
    w_w36_139: W36_139 = W36_139,
    w_w36_140: W36_140 = W36_140,
    w_w36_141: W36_141 = W36_141,
    w_w36_142: W36_142 = W36_142,
    w_w36_143: W36_143 = W36_143,
    w_w36_144: W36_144 = W36_144,
    w_w36_145: W36_145 = W36_145,
    w_w36_146: W36_146 = W36_146,
    w_w36_147: W36_147 = W36_147,
    w_w36_148: W36_148 = W36_148,
    w_w36_149: W36_149 = W36_149,
    w_w36_150: W36_150 = W36_150,
    w_w36_151: W36_151 = W36_151,
    w_w36_152: W36_152 = W36_152,
    w_w36_153: W36_153 = W36_153,
    w_w36_154: W36_154 = W36_154,
    w_w36_155: W36_155 = W36_155,
    w_w36_156: W36_156 = W36_156,
    w_w36_157: W36_157 = W36_157,
    w_w36_158: W36_158 = W36_158,
    w_w36_159: W36_159 = W36_159,
    w_w36_160: W36_160 = W36_160,
    w_w36_161: W36_161 = W36_161,
    w_w36_162: W36_162 = W36_162,
    w_w36_163: W36_163 = W36_163,
    w_w36_164: W36_164 = W36_164,
    w_w36_165: W36_165 = W36_165,
    w_w36_166: W36_166 = W36_166,
    w_w36_167: W36_167 = W36_167,
    w_w36_168: W36_168 = W36_168,
    w_w36_169: W36_169 = W36_169,
    w_w36_170: W36_170 = W36_170,
    w_w36_171: W36_171 = W36_171,
    w_w36_172: W36_172 = W36_172,
    w_w36_173: W36_173 = W36_173,
    w_w36_174: W36_174 = W36_174,
    w_w36_175: W36_175 = W36_175,
    w_w36_176: W36_176 = W36_176,
    w_w36_177: W36_177 = W36_177,
    w_w36_178: W36_178 = W36_178,
    w_w36_179: W36_179 = W36_179,
    w_w36_180: W36_180 = W36_180,
    w_w36_181: W36_181 = W36_181,
    w_w36_182: W36_182 = W36_182,
    w_w36_183: W36_183 = W36_183,
    w_w36_184: W36_184 = W36_184,
    w_w36_185: W36_185 = W36_185,
    w_w36_186: W36_186 = W36_186,
    w_w36_187: W36_187 = W36_187,
    w_w36_188: W36_188 = W36_188,
    w_w36_189: W36_189 = W36_189,
    w_w36_190: W36_190 = W36_190,
    w_w36_191: W36_191 = W36_191,
    w_w36_192: W36_192 = W36_192,
    w_w36_193: W36_193 = W36_193,
    w_w36_194: W36_194 = W36_194,
    w_w36_195: W36_195 = W36_195,
    w_w36_196: W36_196 = W36_196,
    w_w36_197: W36_197 = W36_197,
    w_w36_198: W36_198 = W36_198,
    w_w36_199: W36_199 = W36_199,
    w_w36_200: W36_200 = W36_200,
    w_w36_201: W36_201 = W36_201,
    w_w36_202: W36_202 = W36_202,
    w_w36_203: W36_203 = W36_203,
    w_w36_204: W36_204 = W36_204,
    w_w36_205: W36_205 = W36_205,
    w_w36_206: W36_206 = W36_206,
    w_w36_207: W36_207 = W36_207,
    w_w36_208: W36_208 = W36_208,
    w_w36_209: W36_209 = W36_209,
    w_w36_210: W36_210 = W36_210,
    w_w36_211: W36_211 = W36_211,
    w_w36_212: W36_212 = W36_212,
    w_w36_213: W36_213 = W36_213,
    w_w36_214: W36_214 = W36_214,
    w_w36_215: W36_215 = W36_215,
    w_w36_216: W36_216 = W36_216,
    w_w36_217: W36_217 = W36_217,
    w_w36_218: W36_218 = W36_218,
    w_w36_219: W36_219 = W36_219,
    w_w36_220: W36_220 = W36_220,
    w_w36_221: W36_221 = W36_221,
    w_w36_222: W36_222 = W36_222,
    w_w36_223: W36_223 = W36_223,
    w_w36_224: W36_224 = W36_224,
    w_w36_225: W36_225 = W36_225,
    w_w36_226: W36_226 = W36_226,
    w_w36_227: W36_227 = W36_227,
    w_w36_228: W36_228 = W36_228,
    w_w36_229: W36_229 = W36_229,
    w_w36_230: W36_230 = W36_230,
    w_w36_231: W36_231 = W36_231,
    w_w36_232: W36_232 = W36_232,
    w_w36_233: W36_233 = W36_233,
    w_w36_234: W36_234 = W36_234,
    w_w36_235: W36_235 = W36_235,
    w_w36_236: W36_236 = W36_236,
    w_w36_237: W36_237 = W36_237,
    w_w36_238: W36_238 = W36_238,
    w_w36_239: W36_239 = W36_239,
    w_w36_240: W36_240 = W36_240,
    w_w36_241: W36_241 = W36_241,
    w_w36_242: W36_242 = W36_242,
    w_w36_243: W36_243 = W36_243,
    w_w36_244: W36_244 = W36_244,
    w_w36_245: W36_245 = W36_245,
    w_w36_246: W36_246 = W36_246,
    w_w36_247: W36_247 = W36_247,
    w_w36_248: W36_248 = W36_248,
    w_w36_249: W36_249 = W36_249,
    w_w36_250: W36_250 = W36_250,
    w_w36_251: W36_251 = W36_251,
    w_w36_252: W36_252 = W36_252,
    w_w36_253: W36_253 = W36_253,
    w_w36_254: W36_254 = W36_254,
    w_w36_255: W36_255 = W36_255,
    w_w36_256: W36_256 = W36_256,
    w_w36_257: W36_257 = W36_257,
    w_w36_258: W36_258 = W36_258,
    w_w36_259: W36_259 = W36_259,
    w_w36_260: W36_260 = W36_260,
    w_w36_261: W36_261 = W36_261,
    w_w36_262: W36_262 = W36_262,
    w_w36_263: W36_263 = W36_263,
    w_w36_264: W36_264 = W36_264,
    w_w36_265: W36_265 = W36_265,
    w_w36_266: W36_266 = W36_266,
    w_w36_267: W36_267 = W36_267,
    w_w36_268: W36_268 = W36_268,
    w_w36_269: W36_269 = W36_269,
    w_w36_270: W36_270 = W36_270,
    w_w36_271: W36_271 = W36_271,
    w_w36_272: W36_272 = W36_272,
    w_w36_273: W36_273 = W36_273,
    w_w36_274: W36_274 = W36_274,
    w_w36_275: W36_275 = W36_275,
    w_w36_276: W36_276 = W36_276,
    w_w36_277: W36_277 = W36_277,
    w_w36_278: W36_278 = W36_278,
    w_w36_279: W36_279 = W36_279,
    w_w36_280: W36_280 = W36_280,
    w_w36_281: W36_281 = W36_281,
    w_w36_282: W36_282 = W36_282,
    w_w36_283: W36_283 = W36_283,
    w_w36_284: W36_284 = W36_284,
    w_w36_285: W36_285 = W36_285,
    w_w36_286: W36_286 = W36_286,
    w_w36_287: W36_287 = W36_287,
    w_w36_288: W36_288 = W36_288,
    w_w36_289: W36_289 = W36_289,
    w_w36_290: W36_290 = W36_290,
    w_w36_291: W36_291 = W36_291,
    w_w36_292: W36_292 = W36_292,
    w_w36_293: W36_293 = W36_293,
    w_w36_294: W36_294 = W36_294,
    w_w36_295: W36_295 = W36_295,
    w_w36_296: W36_296 = W36_296,
    w_w36_297: W36_297 = W36_297,
    w_w36_298: W36_298 = W36_298,
    w_w36_299: W36_299 = W36_299,
    w_w36_300: W36_300 = W36_300,
    w_w36_301: W36_301 = W36_301,
    w_w36_302: W36_302 = W36_302,
    w_w36_303: W36_303 = W36_303,
    w_w36_304: W36_304 = W36_304,
    w_w36_305: W36_305 = W36_305,
    w_w36_306: W36_306 = W36_306,
    w_w36_307: W36_307 = W36_307,
    w_w36_308: W36_308 = W36_308,
    w_w36_309: W36_309 = W36_309,
    w_w36_310: W36_310 = W36_310,
    w_w36_311: W36_311 = W36_311,
    w_w36_312: W36_312 = W36_312,
    w_w36_313: W36_313 = W36_313,
    w_w36_314: W36_314 = W36_314,
    w_w36_315: W36_315 = W36_315,
    w_w36_316: W36_316 = W36_316,
    w_w36_317: W36_317 = W36_317,
    w_w36_318: W36_318 = W36_318,
    w_w36_319: W36_319 = W36_319,
    w_w36_320: W36_320 = W36_320,
    w_w36_321: W36_321 = W36_321,
    w_w36_322: W36_322 = W36_322,
    w_w36_323: W36_323 = W36_323,
    w_w36_324: W36_324 = W36_324,
    w_w36_325: W36_325 = W36_325,
    w_w36_326: W36_326 = W36_326,
    w_w36_327: W36_327 = W36_327,
    w_w36_328: W36_328 = W36_328,
    w_w36_329: W36_329 = W36_329,
    w_w36_330: W36_330 = W36_330,
    w_w36_331: W36_331 = W36_331,
    w_w36_332: W36_332 = W36_332,
    w_w36_333: W36_333 = W36_333,
    w_w36_334: W36_334 = W36_334,
    w_w36_335: W36_335 = W36_335,
    w_w36_336: W36_336 = W36_336,
    w_w36_337: W36_337 = W36_337,
    w_w36_338: W36_338 = W36_338,
    w_w36_339: W36_339 = W36_339,
    w_w36_340: W36_340 = W36_340,
    w_w36_341: W36_341 = W36_341,
    w_w36_342: W36_342 = W36_342,
    w_w36_343: W36_343 = W36_343,
    w_w36_344: W36_344 = W36_344,
    w_w36_345: W36_345 = W36_345,
    w_w36_346: W36_346 = W36_346,
    w_w36_347: W36_347 = W36_347,
    w_w36_348: W36_348 = W36_348,
    w_w36_349: W36_349 = W36_349,
    w_w36_350: W36_350 = W36_350,
    w_w36_351: W36_351 = W36_351,
    w_w36_352: W36_352 = W36_352,
    w_w36_353: W36_353 = W36_353,
    w_w36_354: W36_354 = W36_354,
    w_w36_355: W36_355 = W36_355,
    w_w36_356: W36_356 = W36_356,
    w_w36_357: W36_357 = W36_357,
    w_w36_358: W36_358 = W36_358,
    w_w36_359: W36_359 = W36_359,
    w_w36_360: W36_360 = W36_360,
    w_w36_361: W36_361 = W36_361,
    w_w36_362: W36_362 = W36_362,
    w_w36_363: W36_363 = W36_363,
    w_w36_364: W36_364 = W36_364,
    w_w36_365: W36_365 = W36_365,
    w_w36_366: W36_366 = W36_366,
    w_w36_367: W36_367 = W36_367,
    w_w36_368: W36_368 = W36_368,
    w_w36_369: W36_369 = W36_369,
    w_w36_370: W36_370 = W36_370,
    w_w36_371: W36_371 = W36_371,
    w_w36_372: W36_372 = W36_372,
    w_w36_373: W36_373 = W36_373,
    w_w36_374: W36_374 = W36_374,
    w_w36_375: W36_375 = W36_375,
    w_w36_376: W36_376 = W36_376,
    w_w36_377: W36_377 = W36_377,
    w_w36_378: W36_378 = W36_378,
    w_w36_379: W36_379 = W36_379,
    w_w36_380: W36_380 = W36_380,
    w_w36_381: W36_381 = W36_381,
    w_w36_382: W36_382 = W36_382,
    w_w36_383: W36_383 = W36_383,
    w_w36_384: W36_384 = W36_384,
    w_w36_385: W36_385 = W36_385,
    w_w36_386: W36_386 = W36_386,
    w_w36_387: W36_387 = W36_387,
    w_w36_388: W36_388 = W36_388,
    w_w36_389: W36_389 = W36_389,
    w_w36_390: W36_390 = W36_390,
    w_w36_391: W36_391 = W36_391,
    w_w36_392: W36_392 = W36_392,
    w_w36_393: W36_393 = W36_393,
    w_w36_394: W36_394 = W36_394,
    w_w36_395: W36_395 = W36_395,
    w_w36_396: W36_396 = W36_396,
    w_w36_397: W36_397 = W36_397,
    w_w36_398: W36_398 = W36_398,
    w_w36_399: W36_399 = W36_399,
    w_w36_400: W36_400 = W36_400,
    w_w36_401: W36_401 = W36_401,
    w_w36_402: W36_402 = W36_402,
    w_w36_403: W36_403 = W36_403,
    w_w36_404: W36_404 = W36_404,
    w_w36_405: W36_405 = W36_405,
    w_w36_406: W36_406 = W36_406,
    w_w36_407: W36_407 = W36_407,
    w_w36_408: W36_408 = W36_408,
    w_w36_409: W36_409 = W36_409,
    w_w36_410: W36_410 = W36_410,
    w_w36_411: W36_411 = W36_411,
    w_w36_412: W36_412 = W36_412,
    w_w36_413: W36_413 = W36_413,
    w_w36_414: W36_414 = W36_414,
    w_w36_415: W36_415 = W36_415,
    w_w36_416: W36_416 = W36_416,
    w_w36_417: W36_417 = W36_417,
    w_w36_418: W36_418 = W36_418,
    w_w36_419: W36_419 = W36_419,
    w_w36_420: W36_420 = W36_420,
    w_w36_421: W36_421 = W36_421,
    w_w36_422: W36_422 = W36_422,
    w_w36_423: W36_423 = W36_423,
    w_w36_424: W36_424 = W36_424,
    w_w36_425: W36_425 = W36_425,
    w_w36_426: W36_426 = W36_426,
    w_w36_427: W36_427 = W36_427,
    w_w36_428: W36_428 = W36_428,
    w_w36_429: W36_429 = W36_429,
    w_w36_430: W36_430 = W36_430,
    w_w36_431: W36_431 = W36_431,
    w_w36_432: W36_432 = W36_432,
    w_w36_433: W36_433 = W36_433,
    w_w36_434: W36_434 = W36_434,
    w_w36_435: W36_435 = W36_435,
    w_w36_436: W36_436 = W36_436,
    w_w36_437: W36_437 = W36_437,
    w_w36_438: W36_438 = W36_438,
    w_w36_439: W36_439 = W36_439,
    w_w36_440: W36_440 = W36_440,
    w_w36_441: W36_441 = W36_441,
    w_w36_442: W36_442 = W36_442,
    w_w36_443: W36_443 = W36_443,
    w_w36_444: W36_444 = W36_444,
    w_w36_445: W36_445 = W36_445,
    w_w36_446: W36_446 = W36_446,
    w_w36_447: W36_447 = W36_447,
    w_w36_448: W36_448 = W36_448,
    w_w36_449: W36_449 = W36_449,
    w_w36_450: W36_450 = W36_450,
    w_w36_451: W36_451 = W36_451,
    w_w36_452: W36_452 = W36_452,
    w_w36_453: W36_453 = W36_453,
    w_w36_454: W36_454 = W36_454,
    w_w36_455: W36_455 = W36_455,
    w_w36_456: W36_456 = W36_456,
    w_w36_457: W36_457 = W36_457,
    w_w36_458: W36_458 = W36_458,
    w_w36_459: W36_459 = W36_459,
    w_w36_460: W36_460 = W36_460,
    w_w36_461: W36_461 = W36_461,
    w_w36_462: W36_462 = W36_462,
    w_w36_463: W36_463 = W36_463,
    w_w36_464: W36_464 = W36_464,
    w_w36_465: W36_465 = W36_465,
    w_w36_466: W36_466 = W36_466,
    w_w36_467: W36_467 = W36_467,
    w_w36_468: W36_468 = W36_468,
    w_w36_469: W36_469 = W36_469,
    w_w36_470: W36_470 = W36_470,
    w_w36_471: W36_471 = W36_471,
    w_w36_472: W36_472 = W36_472,
    w_w36_473: W36_473 = W36_473,
    w_w36_474: W36_474 = W36_474,
    w_w36_475: W36_475 = W36_475,
    w_w36_476: W36_476 = W36_476,
    w_w36_477: W36_477 = W36_477,
    w_w36_478: W36_478 = W36_478,
    w_w36_479: W36_479 = W36_479,
    w_w36_480: W36_480 = W36_480,
    w_w36_481: W36_481 = W36_481,
    w_w36_482: W36_482 = W36_482,
    w_w36_483: W36_483 = W36_483,
    w_w36_484: W36_484 = W36_484,
    w_w36_485: W36_485 = W36_485,
    w_w36_486: W36_486 = W36_486,
    w_w36_487: W36_487 = W36_487,
    w_w36_488: W36_488 = W36_488,
    w_w36_489: W36_489 = W36_489,
    w_w36_490: W36_490 = W36_490,
    w_w36_491: W36_491 = W36_491,
    w_w36_492: W36_492 = W36_492,
    w_w36_493: W36_493 = W36_493,
    w_w36_494: W36_494 = W36_494,
    w_w36_495: W36_495 = W36_495,
    w_w36_496: W36_496 = W36_496,
    w_w36_497: W36_497 = W36_497,
    w_w36_498: W36_498 = W36_498,
    w_w36_499: W36_499 = W36_499,
    w_w36_500: W36_500 = W36_500,
    w_w36_501: W36_501 = W36_501,
    w_w36_502: W36_502 = W36_502,
    w_w36_503: W36_503 = W36_503,
    w_w36_504: W36_504 = W36_504,
    w_w36_505: W36_505 = W36_505,
    w_w36_506: W36_506 = W36_506,
    w_w36_507: W36_507 = W36_507,
    w_w36_508: W36_508 = W36_508,
    w_w36_509: W36_509 = W36_509,
    w_w36_510: W36_510 = W36_510,
    w_w36_511: W36_511 = W36_511,
    w_w36_512: W36_512 = W36_512,
    w_w36_513: W36_513 = W36_513,
    w_w36_514: W36_514 = W36_514,
    w_w36_515: W36_515 = W36_515,
    w_w36_516: W36_516 = W36_516,
    w_w36_517: W36_517 = W36_517,
    w_w36_518: W36_518 = W36_518,
    w_w36_519: W36_519 = W36_519,
    w_w36_520: W36_520 = W36_520,
    w_w36_521: W36_521 = W36_521,
    w_w36_522: W36_522 = W36_522,
    w_w36_523: W36_523 = W36_523,
    w_w36_524: W36_524 = W36_524,
    w_w36_525: W36_525 = W36_525,
    w_w36_526: W36_526 = W36_526,
    w_w36_527: W36_527 = W36_527,
    w_w36_528: W36_528 = W36_528,
    w_w36_529: W36_529 = W36_529,
    w_w36_530: W36_530 = W36_530,
    w_w36_531: W36_531 = W36_531,
    w_w36_532: W36_532 = W36_532,
    w_w36_533: W36_533 = W36_533,
    w_w36_534: W36_534 = W36_534,
    w_w36_535: W36_535 = W36_535,
    w_w36_536: W36_536 = W36_536,
    w_w36_537: W36_537 = W36_537,
    w_w36_538: W36_538 = W36_538,
    w_w36_539: W36_539 = W36_539,
    w_w36_540: W36_540 = W36_540,
    w_w36_541: W36_541 = W36_541,
    w_w36_542: W36_542 = W36_542,
    w_w36_543: W36_543 = W36_543,
    w_w36_544: W36_544 = W36_544,
    w_w36_545: W36_545 = W36_545,
    w_w36_546: W36_546 = W36_546,
    w_w36_547: W36_547 = W36_547,
    w_w36_548: W36_548 = W36_548,
    w_w36_549: W36_549 = W36_549,
    w_w36_550: W36_550 = W36_550,
    w_w36_551: W36_551 = W36_551,
    w_w36_552: W36_552 = W36_552,
    w_w36_553: W36_553 = W36_553,
    w_w36_554: W36_554 = W36_554,
    w_w36_555: W36_555 = W36_555,
    w_w36_556: W36_556 = W36_556,
    w_w36_557: W36_557 = W36_557,
    w_w36_558: W36_558 = W36_558,
    w_w36_559: W36_559 = W36_559,
    w_w36_560: W36_560 = W36_560,
    w_w36_561: W36_561 = W36_561,
    w_w36_562: W36_562 = W36_562,
    w_w36_563: W36_563 = W36_563,
    w_w36_564: W36_564 = W36_564,
    w_w36_565: W36_565 = W36_565,
    w_w36_566: W36_566 = W36_566,
    w_w36_567: W36_567 = W36_567,
    w_w36_568: W36_568 = W36_568,
    w_w36_569: W36_569 = W36_569,
    w_w36_570: W36_570 = W36_570,
    w_w36_571: W36_571 = W36_571,
    w_w36_572: W36_572 = W36_572,
    w_w36_573: W36_573 = W36_573,
    w_w36_574: W36_574 = W36_574,
    w_w36_575: W36_575 = W36_575,
    w_w36_576: W36_576 = W36_576,
    w_w36_577: W36_577 = W36_577,
    w_w36_578: W36_578 = W36_578,
    w_w36_579: W36_579 = W36_579,
    w_w36_580: W36_580 = W36_580,
    w_w36_581: W36_581 = W36_581,
    w_w36_582: W36_582 = W36_582,
    w_w36_583: W36_583 = W36_583,
    w_w36_584: W36_584 = W36_584,
    w_w36_585: W36_585 = W36_585,
    w_w36_586: W36_586 = W36_586,
    w_w36_587: W36_587 = W36_587,
    w_w36_588: W36_588 = W36_588,
    w_w36_589: W36_589 = W36_589,
    w_w36_590: W36_590 = W36_590,
    w_w36_591: W36_591 = W36_591,
    w_w36_592: W36_592 = W36_592,
    w_w36_593: W36_593 = W36_593,
    w_w36_594: W36_594 = W36_594,
    w_w36_595: W36_595 = W36_595,
    w_w36_596: W36_596 = W36_596,
    w_w36_597: W36_597 = W36_597,
    w_w36_598: W36_598 = W36_598,
    w_w36_599: W36_599 = W36_599,
    w_w36_600: W36_600 = W36_600,
    w_w36_601: W36_601 = W36_601,
    w_w36_602: W36_602 = W36_602,
    w_w36_603: W36_603 = W36_603,
    w_w36_604: W36_604 = W36_604,
    w_w36_605: W36_605 = W36_605,
    w_w36_606: W36_606 = W36_606,
    w_w36_607: W36_607 = W36_607,
    w_w36_608: W36_608 = W36_608,
    w_w36_609: W36_609 = W36_609,
    w_w36_610: W36_610 = W36_610,
    w_w36_611: W36_611 = W36_611,
    w_w36_612: W36_612 = W36_612,
    w_w36_613: W36_613 = W36_613,
    w_w36_614: W36_614 = W36_614,
    w_w36_615: W36_615 = W36_615,
    w_w36_616: W36_616 = W36_616,
    w_w36_617: W36_617 = W36_617,
    w_w36_618: W36_618 = W36_618,
    w_w36_619: W36_619 = W36_619,
    w_w36_620: W36_620 = W36_620,
    w_w36_621: W36_621 = W36_621,
    w_w36_622: W36_622 = W36_622,
    w_w36_623: W36_623 = W36_623,
    w_w36_624: W36_624 = W36_624,
    w_w36_625: W36_625 = W36_625,
    w_w36_626: W36_626 = W36_626,
    w_w36_627: W36_627 = W36_627,
    w_w36_628: W36_628 = W36_628,
    w_w36_629: W36_629 = W36_629,
    w_w36_630: W36_630 = W36_630,
    w_w36_631: W36_631 = W36_631,
    w_w36_632: W36_632 = W36_632,
    w_w36_633: W36_633 = W36_633,
    w_w36_634: W36_634 = W36_634,
    w_w36_635: W36_635 = W36_635,
    w_w36_636: W36_636 = W36_636,
    w_w36_637: W36_637 = W36_637,
    w_w36_638: W36_638 = W36_638,
    w_w36_639: W36_639 = W36_639,
    w_w36_640: W36_640 = W36_640,
    w_w36_641: W36_641 = W36_641,
    w_w36_642: W36_642 = W36_642,
    w_w36_643: W36_643 = W36_643,
    w_w36_644: W36_644 = W36_644,
    w_w36_645: W36_645 = W36_645,
    w_w36_646: W36_646 = W36_646,
    w_w36_647: W36_647 = W36_647,
    w_w36_648: W36_648 = W36_648,
    w_w36_649: W36_649 = W36_649,
    w_w36_650: W36_650 = W36_650,
    w_w36_651: W36_651 = W36_651,
    w_w36_652: W36_652 = W36_652,
    w_w36_653: W36_653 = W36_653,
    w_w36_654: W36_654 = W36_654,
    w_w36_655: W36_655 = W36_655,
    w_w36_656: W36_656 = W36_656,
    w_w36_657: W36_657 = W36_657,
    w_w36_658: W36_658 = W36_658,
    w_w37_1: W37_1 = W37_1,
    w_w37_2: W37_2 = W37_2,
    w_w37_3: W37_3 = W37_3,
    w_w37_4: W37_4 = W37_4,
    w_w37_5: W37_5 = W37_5,
    w_w37_6: W37_6 = W37_6,
    w_w37_7: W37_7 = W37_7,
    w_w37_8: W37_8 = W37_8,
    w_w37_9: W37_9 = W37_9,
    w_w37_10: W37_10 = W37_10,
    w_w37_11: W37_11 = W37_11,
    w_w37_12: W37_12 = W37_12,
    w_w37_13: W37_13 = W37_13,
    w_w37_14: W37_14 = W37_14,
    w_w37_15: W37_15 = W37_15,
    w_w37_16: W37_16 = W37_16,
    w_w37_17: W37_17 = W37_17,
    w_w37_18: W37_18 = W37_18,
    w_w37_19: W37_19 = W37_19,
    w_w37_20: W37_20 = W37_20,
    w_w37_21: W37_21 = W37_21,
    w_w37_22: W37_22 = W37_22,
    w_w37_23: W37_23 = W37_23,
    w_w37_24: W37_24 = W37_24,
    w_w37_25: W37_25 = W37_25,
    w_w37_26: W37_26 = W37_26,
    w_w37_27: W37_27 = W37_27,
    w_w37_28: W37_28 = W37_28,
    w_w37_29: W37_29 = W37_29,
    w_w37_30: W37_30 = W37_30,
    w_w37_31: W37_31 = W37_31,
    w_w37_32: W37_32 = W37_32,
    w_w37_33: W37_33 = W37_33,
    w_w37_34: W37_34 = W37_34,
    w_w37_35: W37_35 = W37_35,
    w_w37_36: W37_36 = W37_36,
    w_w37_37: W37_37 = W37_37,
    w_w37_38: W37_38 = W37_38,
    w_w37_39: W37_39 = W37_39,
    w_w37_40: W37_40 = W37_40,
    w_w37_41: W37_41 = W37_41,
    w_w37_42: W37_42 = W37_42,
    w_w37_43: W37_43 = W37_43,
    w_w37_44: W37_44 = W37_44,
    w_w37_45: W37_45 = W37_45,
    w_w37_46: W37_46 = W37_46,
    w_w37_47: W37_47 = W37_47,
    w_w37_48: W37_48 = W37_48,
    w_w37_49: W37_49 = W37_49,
    w_w37_50: W37_50 = W37_50,
    w_w37_51: W37_51 = W37_51,
    w_w37_52: W37_52 = W37_52,
    w_w37_53: W37_53 = W37_53,
    w_w37_54: W37_54 = W37_54,
    w_w37_55: W37_55 = W37_55,
    w_w37_56: W37_56 = W37_56,
    w_w37_57: W37_57 = W37_57,
    w_w37_58: W37_58 = W37_58,
    w_w37_59: W37_59 = W37_59,
    w_w37_60: W37_60 = W37_60,
    w_w37_61: W37_61 = W37_61,
    w_w37_62: W37_62 = W37_62,
    w_w37_63: W37_63 = W37_63,
    w_w37_64: W37_64 = W37_64,
    w_w37_65: W37_65 = W37_65,
    w_w37_66: W37_66 = W37_66,
    w_w37_67: W37_67 = W37_67,
    w_w37_68: W37_68 = W37_68,
    w_w37_69: W37_69 = W37_69,
    w_w37_70: W37_70 = W37_70,
    w_w37_71: W37_71 = W37_71,
    w_w37_72: W37_72 = W37_72,
    w_w37_73: W37_73 = W37_73,
    w_w37_74: W37_74 = W37_74,
    w_w37_75: W37_75 = W37_75,
    w_w37_76: W37_76 = W37_76,
    w_w37_77: W37_77 = W37_77,
    w_w37_78: W37_78 = W37_78,
    w_w37_79: W37_79 = W37_79,
    w_w37_80: W37_80 = W37_80,
    w_w37_81: W37_81 = W37_81,
    w_w37_82: W37_82 = W37_82,
    w_w37_83: W37_83 = W37_83,
    w_w37_84: W37_84 = W37_84,
    w_w37_85: W37_85 = W37_85,
    w_w37_86: W37_86 = W37_86,
    w_w37_87: W37_87 = W37_87,
    w_w37_88: W37_88 = W37_88,
    w_w37_89: W37_89 = W37_89,
    w_w37_90: W37_90 = W37_90,
    w_w37_91: W37_91 = W37_91,
    w_w37_92: W37_92 = W37_92,
    w_w37_93: W37_93 = W37_93,
    w_w37_94: W37_94 = W37_94,
    w_w37_95: W37_95 = W37_95,
    w_w37_96: W37_96 = W37_96,
    w_w37_97: W37_97 = W37_97,
    w_w37_98: W37_98 = W37_98,
    w_w37_99: W37_99 = W37_99,
    w_w37_100: W37_100 = W37_100,
    w_w37_101: W37_101 = W37_101,
    w_w37_102: W37_102 = W37_102,
    w_w37_103: W37_103 = W37_103,
    w_w37_104: W37_104 = W37_104,
    w_w37_105: W37_105 = W37_105,
    w_w37_106: W37_106 = W37_106,
    w_w37_107: W37_107 = W37_107,
    w_w37_108: W37_108 = W37_108,
    w_w37_109: W37_109 = W37_109,
    w_w37_110: W37_110 = W37_110,
    w_w37_111: W37_111 = W37_111,
    w_w37_112: W37_112 = W37_112,
    w_w37_113: W37_113 = W37_113,
    w_w37_114: W37_114 = W37_114,
    w_w37_115: W37_115 = W37_115,
    w_w37_116: W37_116 = W37_116,
    w_w37_117: W37_117 = W37_117,
    w_w37_118: W37_118 = W37_118,
    w_w37_119: W37_119 = W37_119,
    w_w37_120: W37_120 = W37_120,
    w_w37_121: W37_121 = W37_121,
    w_w37_122: W37_122 = W37_122,
    w_w37_123: W37_123 = W37_123,
    w_w37_124: W37_124 = W37_124,
    w_w37_125: W37_125 = W37_125,
    w_w37_126: W37_126 = W37_126,
    w_w37_127: W37_127 = W37_127,
    w_w37_128: W37_128 = W37_128,
    w_w37_129: W37_129 = W37_129,
    w_w37_130: W37_130 = W37_130,
    w_w37_131: W37_131 = W37_131,
    w_w37_132: W37_132 = W37_132,
    w_w37_133: W37_133 = W37_133,
    w_w37_134: W37_134 = W37_134,
    w_w37_135: W37_135 = W37_135,
    w_w37_136: W37_136 = W37_136,
    w_w37_137: W37_137 = W37_137,
    w_w37_138: W37_138 = W37_138,
    w_w37_139: W37_139 = W37_139,
    w_w37_140: W37_140 = W37_140,
    w_w37_141: W37_141 = W37_141,
    w_w37_142: W37_142 = W37_142,
    w_w37_143: W37_143 = W37_143,
    w_w37_144: W37_144 = W37_144,
    w_w37_145: W37_145 = W37_145,
    w_w37_146: W37_146 = W37_146,
    w_w37_147: W37_147 = W37_147,
    w_w37_148: W37_148 = W37_148,
    w_w37_149: W37_149 = W37_149,
    w_w37_150: W37_150 = W37_150,
    w_w37_151: W37_151 = W37_151,
    w_w37_152: W37_152 = W37_152,
    w_w37_153: W37_153 = W37_153,
    w_w37_154: W37_154 = W37_154,
    w_w37_155: W37_155 = W37_155,
    w_w37_156: W37_156 = W37_156,
    w_w37_157: W37_157 = W37_157,
    w_w37_158: W37_158 = W37_158,
    w_w37_159: W37_159 = W37_159,
    w_w37_160: W37_160 = W37_160,
    w_w37_161: W37_161 = W37_161,
    w_w37_162: W37_162 = W37_162,
    w_w37_163: W37_163 = W37_163,
    w_w37_164: W37_164 = W37_164,
    w_w37_165: W37_165 = W37_165,
    w_w37_166: W37_166 = W37_166,
    w_w37_167: W37_167 = W37_167,
    w_w37_168: W37_168 = W37_168,
    w_w37_169: W37_169 = W37_169,
    w_w37_170: W37_170 = W37_170,
    w_w37_171: W37_171 = W37_171,
    w_w37_172: W37_172 = W37_172,
    w_w37_173: W37_173 = W37_173,
    w_w37_174: W37_174 = W37_174,
    w_w37_175: W37_175 = W37_175,
    w_w37_176: W37_176 = W37_176,
    w_w37_177: W37_177 = W37_177,
    w_w37_178: W37_178 = W37_178,
    w_w37_179: W37_179 = W37_179,
    w_w37_180: W37_180 = W37_180,
    w_w37_181: W37_181 = W37_181,
    w_w37_182: W37_182 = W37_182,
    w_w37_183: W37_183 = W37_183,
    w_w37_184: W37_184 = W37_184,
    w_w37_185: W37_185 = W37_185,
    w_w37_186: W37_186 = W37_186,
    w_w37_187: W37_187 = W37_187,
    w_w37_188: W37_188 = W37_188,
    w_w37_189: W37_189 = W37_189,
    w_w37_190: W37_190 = W37_190,
    w_w37_191: W37_191 = W37_191,
    w_w37_192: W37_192 = W37_192,
    w_w37_193: W37_193 = W37_193,
    w_w37_194: W37_194 = W37_194,
    w_w37_195: W37_195 = W37_195,
    w_w37_196: W37_196 = W37_196,
    w_w37_197: W37_197 = W37_197,
    w_w37_198: W37_198 = W37_198,
    w_w37_199: W37_199 = W37_199,
    w_w37_200: W37_200 = W37_200,
    w_w37_201: W37_201 = W37_201,
    w_w37_202: W37_202 = W37_202,
    w_w37_203: W37_203 = W37_203,
    w_w37_204: W37_204 = W37_204,
    w_w37_205: W37_205 = W37_205,
    w_w37_206: W37_206 = W37_206,
    w_w37_207: W37_207 = W37_207,
    w_w37_208: W37_208 = W37_208,
    w_w37_209: W37_209 = W37_209,
    w_w37_210: W37_210 = W37_210,
    w_w37_211: W37_211 = W37_211,
    w_w37_212: W37_212 = W37_212,
    w_w37_213: W37_213 = W37_213,
    w_w37_214: W37_214 = W37_214,
    w_w37_215: W37_215 = W37_215,
    w_w37_216: W37_216 = W37_216,
    w_w37_217: W37_217 = W37_217,
    w_w37_218: W37_218 = W37_218,
    w_w37_219: W37_219 = W37_219,
    w_w37_220: W37_220 = W37_220,
    w_w37_221: W37_221 = W37_221,
    w_w37_222: W37_222 = W37_222,
    w_w37_223: W37_223 = W37_223,
    w_w37_224: W37_224 = W37_224,
    w_w37_225: W37_225 = W37_225,
    w_w37_226: W37_226 = W37_226,
    w_w37_227: W37_227 = W37_227,
    w_w37_228: W37_228 = W37_228,
    w_w37_229: W37_229 = W37_229,
    w_w37_230: W37_230 = W37_230,
    w_w37_231: W37_231 = W37_231,
    w_w37_232: W37_232 = W37_232,
    w_w37_233: W37_233 = W37_233,
    w_w37_234: W37_234 = W37_234,
    w_w37_235: W37_235 = W37_235,
    w_w37_236: W37_236 = W37_236,
    w_w37_237: W37_237 = W37_237,
    w_w37_238: W37_238 = W37_238,
    w_w37_239: W37_239 = W37_239,
    w_w37_240: W37_240 = W37_240,
    w_w37_241: W37_241 = W37_241,
    w_w37_242: W37_242 = W37_242,
    w_w37_243: W37_243 = W37_243,
    w_w37_244: W37_244 = W37_244,
    w_w37_245: W37_245 = W37_245,
    w_w37_246: W37_246 = W37_246,
    w_w37_247: W37_247 = W37_247,
    w_w37_248: W37_248 = W37_248,
    w_w37_249: W37_249 = W37_249,
    w_w37_250: W37_250 = W37_250,
    w_w37_251: W37_251 = W37_251,
    w_w37_252: W37_252 = W37_252,
    w_w37_253: W37_253 = W37_253,
    w_w37_254: W37_254 = W37_254,
    w_w37_255: W37_255 = W37_255,
    w_w37_256: W37_256 = W37_256,
    w_w37_257: W37_257 = W37_257,
    w_w37_258: W37_258 = W37_258,
    w_w37_259: W37_259 = W37_259,
    w_w37_260: W37_260 = W37_260,
    w_w37_261: W37_261 = W37_261,
    w_w37_262: W37_262 = W37_262,
    w_w37_263: W37_263 = W37_263,
    w_w37_264: W37_264 = W37_264,
    w_w37_265: W37_265 = W37_265,
    w_w37_266: W37_266 = W37_266,
    w_w37_267: W37_267 = W37_267,
    w_w37_268: W37_268 = W37_268,
    w_w37_269: W37_269 = W37_269,
    w_w37_270: W37_270 = W37_270,
    w_w37_271: W37_271 = W37_271,
    w_w37_272: W37_272 = W37_272,
    w_w37_273: W37_273 = W37_273,
    w_w37_274: W37_274 = W37_274,
    w_w37_275: W37_275 = W37_275,
    w_w37_276: W37_276 = W37_276,
    w_w37_277: W37_277 = W37_277,
    w_w37_278: W37_278 = W37_278,
    w_w37_279: W37_279 = W37_279,
    w_w37_280: W37_280 = W37_280,
    w_w37_281: W37_281 = W37_281,
    w_w37_282: W37_282 = W37_282,
    w_w37_283: W37_283 = W37_283,
    w_w37_284: W37_284 = W37_284,
    w_w37_285: W37_285 = W37_285,
    w_w37_286: W37_286 = W37_286,
    w_w37_287: W37_287 = W37_287,
    w_w37_288: W37_288 = W37_288,
    w_w37_289: W37_289 = W37_289,
    w_w37_290: W37_290 = W37_290,
    w_w37_291: W37_291 = W37_291,
    w_w37_292: W37_292 = W37_292,
    w_w37_293: W37_293 = W37_293,
    w_w37_294: W37_294 = W37_294,
    w_w37_295: W37_295 = W37_295,
    w_w37_296: W37_296 = W37_296,
    w_w37_297: W37_297 = W37_297,
    w_w37_298: W37_298 = W37_298,
    w_w37_299: W37_299 = W37_299,
    w_w37_300: W37_300 = W37_300,
    w_w37_301: W37_301 = W37_301,
    w_w37_302: W37_302 = W37_302,
    w_w37_303: W37_303 = W37_303,
    w_w37_304: W37_304 = W37_304,
    w_w37_305: W37_305 = W37_305,
    w_w37_306: W37_306 = W37_306,
    w_w37_307: W37_307 = W37_307,
    w_w37_308: W37_308 = W37_308,
    w_w37_309: W37_309 = W37_309,
    w_w37_310: W37_310 = W37_310,
    w_w37_311: W37_311 = W37_311,
    w_w37_312: W37_312 = W37_312,
    w_w37_313: W37_313 = W37_313,
    w_w37_314: W37_314 = W37_314,
    w_w37_315: W37_315 = W37_315,
    w_w37_316: W37_316 = W37_316,
    w_w37_317: W37_317 = W37_317,
    w_w37_318: W37_318 = W37_318,
    w_w37_319: W37_319 = W37_319,
    w_w37_320: W37_320 = W37_320,
    w_w37_321: W37_321 = W37_321,
    w_w37_322: W37_322 = W37_322,
    w_w37_323: W37_323 = W37_323,
    w_w37_324: W37_324 = W37_324,
    w_w37_325: W37_325 = W37_325,
    w_w37_326: W37_326 = W37_326,
    w_w37_327: W37_327 = W37_327,
    w_w37_328: W37_328 = W37_328,
    w_w37_329: W37_329 = W37_329,
    w_w37_330: W37_330 = W37_330,
    w_w37_331: W37_331 = W37_331,
    w_w37_332: W37_332 = W37_332,
    w_w37_333: W37_333 = W37_333,
    w_w37_334: W37_334 = W37_334,
    w_w37_335: W37_335 = W37_335,
    w_w37_336: W37_336 = W37_336,
    w_w37_337: W37_337 = W37_337,
    w_w37_338: W37_338 = W37_338,
    w_w37_339: W37_339 = W37_339,
    w_w37_340: W37_340 = W37_340,
    w_w37_341: W37_341 = W37_341,
    w_w37_342: W37_342 = W37_342,
    w_w37_343: W37_343 = W37_343,
    w_w37_344: W37_344 = W37_344,
    w_w37_345: W37_345 = W37_345,
    w_w37_346: W37_346 = W37_346,
    w_w37_347: W37_347 = W37_347,
    w_w37_348: W37_348 = W37_348,
    w_w37_349: W37_349 = W37_349,
    w_w37_350: W37_350 = W37_350,
    w_w37_351: W37_351 = W37_351,
    w_w37_352: W37_352 = W37_352,
    w_w37_353: W37_353 = W37_353,
    w_w37_354: W37_354 = W37_354,
    w_w37_355: W37_355 = W37_355,
    w_w37_356: W37_356 = W37_356,
    w_w37_357: W37_357 = W37_357,
    w_w37_358: W37_358 = W37_358,
    w_w37_359: W37_359 = W37_359,
    w_w37_360: W37_360 = W37_360,
    w_w37_361: W37_361 = W37_361,
    w_w37_362: W37_362 = W37_362,
    w_w37_363: W37_363 = W37_363,
    w_w37_364: W37_364 = W37_364,
    w_w37_365: W37_365 = W37_365,
    w_w37_366: W37_366 = W37_366,
    w_w37_367: W37_367 = W37_367,
    w_w37_368: W37_368 = W37_368,
    w_w37_369: W37_369 = W37_369,
    w_w37_370: W37_370 = W37_370,
    w_w37_371: W37_371 = W37_371,
    w_w37_372: W37_372 = W37_372,
    w_w37_373: W37_373 = W37_373,
    w_w37_374: W37_374 = W37_374,
    w_w37_375: W37_375 = W37_375,
    w_w37_376: W37_376 = W37_376,
    w_w37_377: W37_377 = W37_377,
    w_w37_378: W37_378 = W37_378,
    w_w37_379: W37_379 = W37_379,
    w_w37_380: W37_380 = W37_380,
    w_w37_381: W37_381 = W37_381,
    w_w37_382: W37_382 = W37_382,
    w_w37_383: W37_383 = W37_383,
    w_w37_384: W37_384 = W37_384,
    w_w37_385: W37_385 = W37_385,
    w_w37_386: W37_386 = W37_386,
    w_w37_387: W37_387 = W37_387,
    w_w37_388: W37_388 = W37_388,
    w_w37_389: W37_389 = W37_389,
    w_w37_390: W37_390 = W37_390,
    w_w37_391: W37_391 = W37_391,
    w_w37_392: W37_392 = W37_392,
    w_w37_393: W37_393 = W37_393,
    w_w37_394: W37_394 = W37_394,
    w_w37_395: W37_395 = W37_395,
    w_w37_396: W37_396 = W37_396,
    w_w37_397: W37_397 = W37_397,
    w_w37_398: W37_398 = W37_398,
    w_w37_399: W37_399 = W37_399,
    w_w37_400: W37_400 = W37_400,
    w_w37_401: W37_401 = W37_401,
    w_w37_402: W37_402 = W37_402,
    w_w37_403: W37_403 = W37_403,
    w_w37_404: W37_404 = W37_404,
    w_w37_405: W37_405 = W37_405,
    w_w37_406: W37_406 = W37_406,
    w_w37_407: W37_407 = W37_407,
    w_w37_408: W37_408 = W37_408,
    w_w37_409: W37_409 = W37_409,
    w_w37_410: W37_410 = W37_410,
    w_w37_411: W37_411 = W37_411,
    w_w37_412: W37_412 = W37_412,
    w_w37_413: W37_413 = W37_413,
    w_w37_414: W37_414 = W37_414,
    w_w37_415: W37_415 = W37_415,
    w_w37_416: W37_416 = W37_416,
    w_w37_417: W37_417 = W37_417,
    w_w37_418: W37_418 = W37_418,
    w_w37_419: W37_419 = W37_419,
    w_w37_420: W37_420 = W37_420,
    w_w37_421: W37_421 = W37_421,
    w_w37_422: W37_422 = W37_422,
    w_w37_423: W37_423 = W37_423,
    w_w37_424: W37_424 = W37_424,
    w_w37_425: W37_425 = W37_425,
    w_w37_426: W37_426 = W37_426,
    w_w37_427: W37_427 = W37_427,
    w_w37_428: W37_428 = W37_428,
    w_w37_429: W37_429 = W37_429,
    w_w37_430: W37_430 = W37_430,
    w_w37_431: W37_431 = W37_431,
    w_w37_432: W37_432 = W37_432,
    w_w37_433: W37_433 = W37_433,
    w_w37_434: W37_434 = W37_434,
    w_w37_435: W37_435 = W37_435,
    w_w37_436: W37_436 = W37_436,
    w_w37_437: W37_437 = W37_437,
    w_w37_438: W37_438 = W37_438,
    w_w37_439: W37_439 = W37_439,
    w_w37_440: W37_440 = W37_440,
    w_w37_441: W37_441 = W37_441,
    w_w37_442: W37_442 = W37_442,
    w_w37_443: W37_443 = W37_443,
    w_w37_444: W37_444 = W37_444,
    w_w37_445: W37_445 = W37_445,
    w_w37_446: W37_446 = W37_446,
    w_w37_447: W37_447 = W37_447,
    w_w37_448: W37_448 = W37_448,
    w_w37_449: W37_449 = W37_449,
    w_w37_450: W37_450 = W37_450,
    w_w37_451: W37_451 = W37_451,
    w_w37_452: W37_452 = W37_452,
    w_w37_453: W37_453 = W37_453,
    w_w37_454: W37_454 = W37_454,
    w_w37_455: W37_455 = W37_455,
    w_w37_456: W37_456 = W37_456,
    w_w37_457: W37_457 = W37_457,
    w_w37_458: W37_458 = W37_458,
    w_w37_459: W37_459 = W37_459,
    w_w37_460: W37_460 = W37_460,
    w_w37_461: W37_461 = W37_461,
    w_w37_462: W37_462 = W37_462,
    w_w37_463: W37_463 = W37_463,
    w_w37_464: W37_464 = W37_464,
    w_w37_465: W37_465 = W37_465,
    w_w37_466: W37_466 = W37_466,
    w_w37_467: W37_467 = W37_467,
    w_w37_468: W37_468 = W37_468,
    w_w37_469: W37_469 = W37_469,
    w_w37_470: W37_470 = W37_470,
    w_w37_471: W37_471 = W37_471,
    w_w37_472: W37_472 = W37_472,
    w_w37_473: W37_473 = W37_473,
    w_w37_474: W37_474 = W37_474,
    w_w37_475: W37_475 = W37_475,
    w_w37_476: W37_476 = W37_476,
    w_w37_477: W37_477 = W37_477,
    w_w37_478: W37_478 = W37_478,
    w_w37_479: W37_479 = W37_479,
    w_w37_480: W37_480 = W37_480,
    w_w37_481: W37_481 = W37_481,
    w_w37_482: W37_482 = W37_482,
    w_w37_483: W37_483 = W37_483,
    w_w37_484: W37_484 = W37_484,
    w_w37_485: W37_485 = W37_485,
    w_w37_486: W37_486 = W37_486,
    w_w37_487: W37_487 = W37_487,
    w_w37_488: W37_488 = W37_488,
    w_w37_489: W37_489 = W37_489,
    w_w37_490: W37_490 = W37_490,
    w_w37_491: W37_491 = W37_491,
    w_w37_492: W37_492 = W37_492,
    w_w37_493: W37_493 = W37_493,
    w_w37_494: W37_494 = W37_494,
    w_w37_495: W37_495 = W37_495,
    w_w37_496: W37_496 = W37_496,
    w_w37_497: W37_497 = W37_497,
    w_w37_498: W37_498 = W37_498,
    w_w37_499: W37_499 = W37_499,
    w_w37_500: W37_500 = W37_500,
    w_w37_501: W37_501 = W37_501,
    w_w37_502: W37_502 = W37_502,
    w_w37_503: W37_503 = W37_503,
    w_w37_504: W37_504 = W37_504,
    w_w37_505: W37_505 = W37_505,
    w_w37_506: W37_506 = W37_506,
    w_w37_507: W37_507 = W37_507,
    w_w37_508: W37_508 = W37_508,
    w_w37_509: W37_509 = W37_509,
    w_w37_510: W37_510 = W37_510,
    w_w37_511: W37_511 = W37_511,
    w_w37_512: W37_512 = W37_512,
    w_w37_513: W37_513 = W37_513,
    w_w37_514: W37_514 = W37_514,
    w_w37_515: W37_515 = W37_515,
    w_w37_516: W37_516 = W37_516,
    w_w37_517: W37_517 = W37_517,
    w_w37_518: W37_518 = W37_518,
    w_w37_519: W37_519 = W37_519,
    w_w37_520: W37_520 = W37_520,
    w_w37_521: W37_521 = W37_521,
    w_w37_522: W37_522 = W37_522,
    w_w37_523: W37_523 = W37_523,
    w_w37_524: W37_524 = W37_524,
    w_w37_525: W37_525 = W37_525,
    w_w37_526: W37_526 = W37_526,
    w_w37_527: W37_527 = W37_527,
    w_w37_528: W37_528 = W37_528,
    w_w37_529: W37_529 = W37_529,
    w_w37_530: W37_530 = W37_530,
    w_w37_531: W37_531 = W37_531,
    w_w37_532: W37_532 = W37_532,
    w_w37_533: W37_533 = W37_533,
    w_w37_534: W37_534 = W37_534,
    w_w37_535: W37_535 = W37_535,
    w_w37_536: W37_536 = W37_536,
    w_w37_537: W37_537 = W37_537,
    w_w37_538: W37_538 = W37_538,
    w_w37_539: W37_539 = W37_539,
    w_w37_540: W37_540 = W37_540,
    w_w37_541: W37_541 = W37_541,
    w_w37_542: W37_542 = W37_542,
    w_w37_543: W37_543 = W37_543,
    w_w37_544: W37_544 = W37_544,
    w_w37_545: W37_545 = W37_545,
    w_w37_546: W37_546 = W37_546,
    w_w37_547: W37_547 = W37_547,
    w_w37_548: W37_548 = W37_548,
    w_w37_549: W37_549 = W37_549,
    w_w37_550: W37_550 = W37_550,
    w_w37_551: W37_551 = W37_551,
    w_w37_552: W37_552 = W37_552,
    w_w37_553: W37_553 = W37_553,
    w_w37_554: W37_554 = W37_554,
    w_w37_555: W37_555 = W37_555,
    w_w37_556: W37_556 = W37_556,
    w_w37_557: W37_557 = W37_557,
    w_w37_558: W37_558 = W37_558,
    w_w37_559: W37_559 = W37_559,
    w_w37_560: W37_560 = W37_560,
    w_w37_561: W37_561 = W37_561,
    w_w37_562: W37_562 = W37_562,
    w_w37_563: W37_563 = W37_563,
    w_w37_564: W37_564 = W37_564,
    w_w37_565: W37_565 = W37_565,
    w_w37_566: W37_566 = W37_566,
    w_w37_567: W37_567 = W37_567,
    w_w37_568: W37_568 = W37_568,
    w_w37_569: W37_569 = W37_569,
    w_w37_570: W37_570 = W37_570,
    w_w37_571: W37_571 = W37_571,
    w_w37_572: W37_572 = W37_572,
    w_w37_573: W37_573 = W37_573,
    w_w37_574: W37_574 = W37_574,
    w_w37_575: W37_575 = W37_575,
    w_w37_576: W37_576 = W37_576,
    w_w37_577: W37_577 = W37_577,
    w_w37_578: W37_578 = W37_578,
    w_w37_579: W37_579 = W37_579,
    w_w37_580: W37_580 = W37_580,
    w_w37_581: W37_581 = W37_581,
    w_w37_582: W37_582 = W37_582,
    w_w37_583: W37_583 = W37_583,
    w_w37_584: W37_584 = W37_584,
    w_w37_585: W37_585 = W37_585,
    w_w37_586: W37_586 = W37_586,
    w_w37_587: W37_587 = W37_587,
    w_w37_588: W37_588 = W37_588,
    w_w37_589: W37_589 = W37_589,
    w_w37_590: W37_590 = W37_590,
    w_w37_591: W37_591 = W37_591,
    w_w37_592: W37_592 = W37_592,
    w_w37_593: W37_593 = W37_593,
    w_w37_594: W37_594 = W37_594,
    w_w37_595: W37_595 = W37_595,
    w_w37_596: W37_596 = W37_596,
    w_w37_597: W37_597 = W37_597,
    w_w37_598: W37_598 = W37_598,
    w_w37_599: W37_599 = W37_599,
    w_w37_600: W37_600 = W37_600,
    w_w37_601: W37_601 = W37_601,
    w_w37_602: W37_602 = W37_602,
    w_w37_603: W37_603 = W37_603,
    w_w37_604: W37_604 = W37_604,
    w_w37_605: W37_605 = W37_605,
    w_w37_606: W37_606 = W37_606,
    w_w37_607: W37_607 = W37_607,
    w_w37_608: W37_608 = W37_608,
    w_w37_609: W37_609 = W37_609,
    w_w37_610: W37_610 = W37_610,
    w_w37_611: W37_611 = W37_611,
    w_w37_612: W37_612 = W37_612,
    w_w37_613: W37_613 = W37_613,
    w_w37_614: W37_614 = W37_614,
    w_w37_615: W37_615 = W37_615,
    w_w37_616: W37_616 = W37_616,
    w_w37_617: W37_617 = W37_617,
    w_w37_618: W37_618 = W37_618,
    w_w37_619: W37_619 = W37_619,
    w_w37_620: W37_620 = W37_620,
    w_w37_621: W37_621 = W37_621,
    w_w37_622: W37_622 = W37_622,
    w_w37_623: W37_623 = W37_623,
    w_w37_624: W37_624 = W37_624,
    w_w37_625: W37_625 = W37_625,
    w_w37_626: W37_626 = W37_626,
    w_w37_627: W37_627 = W37_627,
    w_w37_628: W37_628 = W37_628,
    w_w37_629: W37_629 = W37_629,
    w_w37_630: W37_630 = W37_630,
    w_w37_631: W37_631 = W37_631,
    w_w37_632: W37_632 = W37_632,
    w_w37_633: W37_633 = W37_633,
    w_w37_634: W37_634 = W37_634,
    w_w37_635: W37_635 = W37_635,
    w_w37_636: W37_636 = W37_636,
    w_w37_637: W37_637 = W37_637,
    w_w37_638: W37_638 = W37_638,
    w_w37_639: W37_639 = W37_639,
    w_w37_640: W37_640 = W37_640,
    w_w37_641: W37_641 = W37_641,
    w_w37_642: W37_642 = W37_642,
    w_w37_643: W37_643 = W37_643,
    w_w37_644: W37_644 = W37_644,
    w_w37_645: W37_645 = W37_645,
    w_w37_646: W37_646 = W37_646,
    w_w37_647: W37_647 = W37_647,
    w_w37_648: W37_648 = W37_648,
    w_w37_649: W37_649 = W37_649,
    w_w37_650: W37_650 = W37_650,
    w_w37_651: W37_651 = W37_651,
    w_w37_652: W37_652 = W37_652,
    w_w37_653: W37_653 = W37_653,
    w_w37_654: W37_654 = W37_654,
    w_w37_655: W37_655 = W37_655,
    w_w37_656: W37_656 = W37_656,
    w_w37_657: W37_657 = W37_657,
    w_w37_658: W37_658 = W37_658,
    w_w37_659: W37_659 = W37_659,
    w_w37_660: W37_660 = W37_660,
    w_w37_661: W37_661 = W37_661,
    w_w37_662: W37_662 = W37_662,
    w_w37_663: W37_663 = W37_663,
    w_w37_664: W37_664 = W37_664,
    w_w37_665: W37_665 = W37_665,
    w_w37_666: W37_666 = W37_666,
    w_w37_667: W37_667 = W37_667,
    w_w37_668: W37_668 = W37_668,
    w_w37_669: W37_669 = W37_669,
    w_w37_670: W37_670 = W37_670,
    w_w37_671: W37_671 = W37_671,
    w_w37_672: W37_672 = W37_672,
    w_w37_673: W37_673 = W37_673,
    w_w37_674: W37_674 = W37_674,
    w_w37_675: W37_675 = W37_675,
    w_w37_676: W37_676 = W37_676,
    w_w37_677: W37_677 = W37_677,
    w_w37_678: W37_678 = W37_678,
    w_w37_679: W37_679 = W37_679,
    w_w37_680: W37_680 = W37_680,
    w_w37_681: W37_681 = W37_681,
    w_w37_682: W37_682 = W37_682,
    w_w37_683: W37_683 = W37_683,
    w_w37_684: W37_684 = W37_684,
    w_w37_685: W37_685 = W37_685,
    w_w37_686: W37_686 = W37_686,
    w_w37_687: W37_687 = W37_687,
    w_w37_688: W37_688 = W37_688,
    w_w37_689: W37_689 = W37_689,
    w_w37_690: W37_690 = W37_690,
    w_w37_691: W37_691 = W37_691,
    w_w37_692: W37_692 = W37_692,
    w_w37_693: W37_693 = W37_693,
    w_w37_694: W37_694 = W37_694,
    w_w37_695: W37_695 = W37_695,
    w_w37_696: W37_696 = W37_696,
    w_w37_697: W37_697 = W37_697,
    w_w37_698: W37_698 = W37_698,
    w_w37_699: W37_699 = W37_699,
    w_w37_700: W37_700 = W37_700,
    w_w37_701: W37_701 = W37_701,
    w_w37_702: W37_702 = W37_702,
    w_w37_703: W37_703 = W37_703,
    w_w37_704: W37_704 = W37_704,
    w_w37_705: W37_705 = W37_705,
    w_w37_706: W37_706 = W37_706,
    w_w37_707: W37_707 = W37_707,
    w_w37_708: W37_708 = W37_708,
    w_w37_709: W37_709 = W37_709,
    w_w37_710: W37_710 = W37_710,
    w_w37_711: W37_711 = W37_711,
    w_w37_712: W37_712 = W37_712,
    w_w37_713: W37_713 = W37_713,
    w_w37_714: W37_714 = W37_714,
    w_w37_715: W37_715 = W37_715,
    w_w37_716: W37_716 = W37_716,
    w_w37_717: W37_717 = W37_717,
    w_w37_718: W37_718 = W37_718,
    w_w37_719: W37_719 = W37_719,
    w_w37_720: W37_720 = W37_720,
    w_w37_721: W37_721 = W37_721,
    w_w37_722: W37_722 = W37_722,
    w_w37_723: W37_723 = W37_723,
    w_w37_724: W37_724 = W37_724,
    w_w37_725: W37_725 = W37_725,
    w_w37_726: W37_726 = W37_726,
    w_w37_727: W37_727 = W37_727,
    w_w37_728: W37_728 = W37_728,
    w_w37_729: W37_729 = W37_729,
    w_w37_730: W37_730 = W37_730,
    w_w37_731: W37_731 = W37_731,
    w_w37_732: W37_732 = W37_732,
    w_w37_733: W37_733 = W37_733,
    w_w37_734: W37_734 = W37_734,
    w_w37_735: W37_735 = W37_735,
    w_w37_736: W37_736 = W37_736,
    w_w37_737: W37_737 = W37_737,
    w_w37_738: W37_738 = W37_738,
    w_w37_739: W37_739 = W37_739,
    w_w37_740: W37_740 = W37_740,
    w_w37_741: W37_741 = W37_741,
    w_w37_742: W37_742 = W37_742,
    w_w37_743: W37_743 = W37_743,
    w_w37_744: W37_744 = W37_744,
    w_w37_745: W37_745 = W37_745,
    w_w37_746: W37_746 = W37_746,
    w_w37_747: W37_747 = W37_747,
    w_w37_748: W37_748 = W37_748,
    w_w37_749: W37_749 = W37_749,
    w_w37_750: W37_750 = W37_750,
    w_w37_751: W37_751 = W37_751,
    w_w37_752: W37_752 = W37_752,
    w_w37_753: W37_753 = W37_753,
    w_w37_754: W37_754 = W37_754,
    w_w37_755: W37_755 = W37_755,
    w_w37_756: W37_756 = W37_756,
    w_w37_757: W37_757 = W37_757,
    w_w37_758: W37_758 = W37_758,
    w_w37_759: W37_759 = W37_759,
    w_w37_760: W37_760 = W37_760,
    w_w37_761: W37_761 = W37_761,
    w_w37_762: W37_762 = W37_762,
    w_w37_763: W37_763 = W37_763,
    w_w37_764: W37_764 = W37_764,
    w_w37_765: W37_765 = W37_765,
    w_w37_766: W37_766 = W37_766,
    w_w37_767: W37_767 = W37_767,
    w_w37_768: W37_768 = W37_768,
    w_w37_769: W37_769 = W37_769,
    w_w37_770: W37_770 = W37_770,
    w_w37_771: W37_771 = W37_771,
    w_w37_772: W37_772 = W37_772,
    w_w37_773: W37_773 = W37_773,
    w_w37_774: W37_774 = W37_774,
    w_w37_775: W37_775 = W37_775,
    w_w37_776: W37_776 = W37_776,
    w_w37_777: W37_777 = W37_777,
    w_w37_778: W37_778 = W37_778,
    w_w37_779: W37_779 = W37_779,
    w_w37_780: W37_780 = W37_780,
    w_w37_781: W37_781 = W37_781,
    w_w37_782: W37_782 = W37_782,
    w_w37_783: W37_783 = W37_783,
    w_w37_784: W37_784 = W37_784,
    w_w37_785: W37_785 = W37_785,
    w_w37_786: W37_786 = W37_786,
    w_w37_787: W37_787 = W37_787,
    w_w37_788: W37_788 = W37_788,
    w_w37_789: W37_789 = W37_789,
    w_w37_790: W37_790 = W37_790,
    w_w37_791: W37_791 = W37_791,
    w_w37_792: W37_792 = W37_792,
    w_w37_793: W37_793 = W37_793,
    w_w37_794: W37_794 = W37_794,
    w_w37_795: W37_795 = W37_795,
    w_w37_796: W37_796 = W37_796,
    w_w37_797: W37_797 = W37_797,
    w_w37_798: W37_798 = W37_798,
    w_w37_799: W37_799 = W37_799,
    w_w37_800: W37_800 = W37_800,
    w_w37_801: W37_801 = W37_801,
    w_w37_802: W37_802 = W37_802,
    w_w37_803: W37_803 = W37_803,
    w_w37_804: W37_804 = W37_804,
    w_w37_805: W37_805 = W37_805,
    w_w37_806: W37_806 = W37_806,
    w_w37_807: W37_807 = W37_807,
    w_w37_808: W37_808 = W37_808,
    w_w37_809: W37_809 = W37_809,
    w_w37_810: W37_810 = W37_810,
    w_w37_811: W37_811 = W37_811,
    w_w37_812: W37_812 = W37_812,
    w_w37_813: W37_813 = W37_813,
    w_w37_814: W37_814 = W37_814,
    w_w37_815: W37_815 = W37_815,
    w_w37_816: W37_816 = W37_816,
    w_w37_817: W37_817 = W37_817,
    w_w37_818: W37_818 = W37_818,
    w_w37_819: W37_819 = W37_819,
    w_w37_820: W37_820 = W37_820,
    w_w37_821: W37_821 = W37_821,
    w_w37_822: W37_822 = W37_822,
    w_w37_823: W37_823 = W37_823,
    w_w37_824: W37_824 = W37_824,
    w_w37_825: W37_825 = W37_825,
    w_w37_826: W37_826 = W37_826,
    w_w37_827: W37_827 = W37_827,
    w_w37_828: W37_828 = W37_828,
    w_w37_829: W37_829 = W37_829,
    w_w37_830: W37_830 = W37_830,
    w_w37_831: W37_831 = W37_831,
    w_w37_832: W37_832 = W37_832,
    w_w37_833: W37_833 = W37_833,
    w_w37_834: W37_834 = W37_834,
    w_w37_835: W37_835 = W37_835,
    w_w37_836: W37_836 = W37_836,
    w_w37_837: W37_837 = W37_837,
    w_w37_838: W37_838 = W37_838,
    w_w37_839: W37_839 = W37_839,
    w_w37_840: W37_840 = W37_840,
    w_w37_841: W37_841 = W37_841,
    w_w37_842: W37_842 = W37_842,
    w_w37_843: W37_843 = W37_843,
    w_w37_844: W37_844 = W37_844,
    w_w37_845: W37_845 = W37_845,
    w_w37_846: W37_846 = W37_846,
    w_w37_847: W37_847 = W37_847,
    w_w37_848: W37_848 = W37_848,
    w_w37_849: W37_849 = W37_849,
    w_w37_850: W37_850 = W37_850,
    w_w37_851: W37_851 = W37_851,
    w_w37_852: W37_852 = W37_852,
    w_w37_853: W37_853 = W37_853,
    w_w37_854: W37_854 = W37_854,
    w_w37_855: W37_855 = W37_855,
    w_w37_856: W37_856 = W37_856,
    w_w37_857: W37_857 = W37_857,
    w_w37_858: W37_858 = W37_858,
    w_w37_859: W37_859 = W37_859,
    w_w37_860: W37_860 = W37_860,
    w_w37_861: W37_861 = W37_861,
    w_w37_862: W37_862 = W37_862,
    w_w37_863: W37_863 = W37_863,
    w_w37_864: W37_864 = W37_864,
    w_w37_865: W37_865 = W37_865,
    w_w37_866: W37_866 = W37_866,
    w_w37_867: W37_867 = W37_867,
    w_w37_868: W37_868 = W37_868,
    w_w37_869: W37_869 = W37_869,
    w_w37_870: W37_870 = W37_870,
    w_w37_871: W37_871 = W37_871,
    w_w37_872: W37_872 = W37_872,
    w_w37_873: W37_873 = W37_873,
    w_w37_874: W37_874 = W37_874,
    w_w37_875: W37_875 = W37_875,
    w_w37_876: W37_876 = W37_876,
    w_w37_877: W37_877 = W37_877,
    w_w37_878: W37_878 = W37_878,
    w_w37_879: W37_879 = W37_879,
    w_w37_880: W37_880 = W37_880,
    w_w37_881: W37_881 = W37_881,
    w_w37_882: W37_882 = W37_882,
    w_w37_883: W37_883 = W37_883,
    w_w37_884: W37_884 = W37_884,
    w_w37_885: W37_885 = W37_885,
    w_w37_886: W37_886 = W37_886,
    w_w37_887: W37_887 = W37_887,
    w_w37_888: W37_888 = W37_888,
    w_w37_889: W37_889 = W37_889,
    w_w37_890: W37_890 = W37_890,
    w_w37_891: W37_891 = W37_891,
    w_w37_892: W37_892 = W37_892,
    w_w37_893: W37_893 = W37_893,
    w_w37_894: W37_894 = W37_894,
    w_w37_895: W37_895 = W37_895,
    w_w37_896: W37_896 = W37_896,
    w_w37_897: W37_897 = W37_897,
    w_w37_898: W37_898 = W37_898,
    w_w37_899: W37_899 = W37_899,
    w_w37_900: W37_900 = W37_900,
    w_w37_901: W37_901 = W37_901,
    w_w37_902: W37_902 = W37_902,
    w_w37_903: W37_903 = W37_903,
    w_w37_904: W37_904 = W37_904,
    w_w37_905: W37_905 = W37_905,
    w_w37_906: W37_906 = W37_906,
    w_w37_907: W37_907 = W37_907,
    w_w37_908: W37_908 = W37_908,
    w_w37_909: W37_909 = W37_909,
    w_w37_910: W37_910 = W37_910,
    w_w37_911: W37_911 = W37_911,
    w_w37_912: W37_912 = W37_912,
    w_w37_913: W37_913 = W37_913,
    w_w37_914: W37_914 = W37_914,
    w_w37_915: W37_915 = W37_915,
    w_w37_916: W37_916 = W37_916,
    w_w37_917: W37_917 = W37_917,
    w_w37_918: W37_918 = W37_918,
    w_w37_919: W37_919 = W37_919,
    w_w37_920: W37_920 = W37_920,
    w_w37_921: W37_921 = W37_921,
    w_w37_922: W37_922 = W37_922,
    w_w37_923: W37_923 = W37_923,
    w_w37_924: W37_924 = W37_924,
    w_w37_925: W37_925 = W37_925,
    w_w37_926: W37_926 = W37_926,
    w_w37_927: W37_927 = W37_927,
    w_w37_928: W37_928 = W37_928,
    w_w37_929: W37_929 = W37_929,
    w_w37_930: W37_930 = W37_930,
    w_w37_931: W37_931 = W37_931,
    w_w37_932: W37_932 = W37_932,
    w_w37_933: W37_933 = W37_933,
    w_w37_934: W37_934 = W37_934,
    w_w37_935: W37_935 = W37_935,
    w_w37_936: W37_936 = W37_936,
    w_w37_937: W37_937 = W37_937,
    w_w37_938: W37_938 = W37_938,
    w_w37_939: W37_939 = W37_939,
    w_w37_940: W37_940 = W37_940,
    w_w37_941: W37_941 = W37_941,
    w_w37_942: W37_942 = W37_942,
    w_w37_943: W37_943 = W37_943,
    w_w37_944: W37_944 = W37_944,
    w_w37_945: W37_945 = W37_945,
    w_w37_946: W37_946 = W37_946,
    w_w37_947: W37_947 = W37_947,
    w_w37_948: W37_948 = W37_948,
    w_w37_949: W37_949 = W37_949,
    w_w37_950: W37_950 = W37_950,
    w_w37_951: W37_951 = W37_951,
    w_w37_952: W37_952 = W37_952,
    w_w37_953: W37_953 = W37_953,
    w_w37_954: W37_954 = W37_954,
    w_w37_955: W37_955 = W37_955,
    w_w37_956: W37_956 = W37_956,
    w_w37_957: W37_957 = W37_957,
    w_w37_958: W37_958 = W37_958,
    w_w37_959: W37_959 = W37_959,
    w_w37_960: W37_960 = W37_960,
    w_w37_961: W37_961 = W37_961,
    w_w37_962: W37_962 = W37_962,
    w_w37_963: W37_963 = W37_963,
    w_w37_964: W37_964 = W37_964,
    w_w37_965: W37_965 = W37_965,
    w_w37_966: W37_966 = W37_966,
    w_w37_967: W37_967 = W37_967,
    w_w37_path: W37_path = W37_path,
    w_w37_968: W37_968 = W37_968,
    w_w37_969: W37_969 = W37_969,
    w_w37_970: W37_970 = W37_970,
    w_w37_971: W37_971 = W37_971,
    w_w37_972: W37_972 = W37_972,
    w_w37_973: W37_973 = W37_973,
    w_w37_974: W37_974 = W37_974,
    w_w37_975: W37_975 = W37_975,
    w_w37_976: W37_976 = W37_976,
    w_w37_977: W37_977 = W37_977,
    w_w37_978: W37_978 = W37_978,
    w_w37_979: W37_979 = W37_979,
    w_w37_980: W37_980 = W37_980,
    w_w37_981: W37_981 = W37_981,
    w_w37_982: W37_982 = W37_982,
    w_w37_983: W37_983 = W37_983,
    w_w37_984: W37_984 = W37_984,
    w_w37_985: W37_985 = W37_985,
    w_w37_986: W37_986 = W37_986,
    w_w39_1: W39_1 = W39_1,
    w_w39_2: W39_2 = W39_2,
    w_w39_3: W39_3 = W39_3,
    w_w39_4: W39_4 = W39_4,
    w_w39_5: W39_5 = W39_5,
    w_w39_6: W39_6 = W39_6,
    w_w39_7: W39_7 = W39_7,
    w_w39_8: W39_8 = W39_8,
    w_w39_9: W39_9 = W39_9,
    w_w39_10: W39_10 = W39_10,
    w_w39_11: W39_11 = W39_11,
    w_w39_12: W39_12 = W39_12,
    w_w39_13: W39_13 = W39_13,
    w_w39_14: W39_14 = W39_14,
    w_w39_15: W39_15 = W39_15,
    w_w39_16: W39_16 = W39_16,
    w_w39_17: W39_17 = W39_17,
    w_w39_18: W39_18 = W39_18,
    w_w39_19: W39_19 = W39_19,
    w_w39_20: W39_20 = W39_20,
    w_w39_21: W39_21 = W39_21,
    w_w39_22: W39_22 = W39_22,
    w_w39_23: W39_23 = W39_23,
    w_w39_24: W39_24 = W39_24,
    w_w39_25: W39_25 = W39_25,
    w_w39_26: W39_26 = W39_26,
    w_w39_27: W39_27 = W39_27,
    w_w39_28: W39_28 = W39_28,
    w_w39_29: W39_29 = W39_29,
    w_w39_30: W39_30 = W39_30,
    w_w39_31: W39_31 = W39_31,
    w_w39_32: W39_32 = W39_32,
    w_w39_33: W39_33 = W39_33,
    w_w39_34: W39_34 = W39_34,
    w_w39_35: W39_35 = W39_35,
    w_w39_36: W39_36 = W39_36,
    w_w39_37: W39_37 = W39_37,
    w_w39_38: W39_38 = W39_38,
    w_w39_39: W39_39 = W39_39,
    w_w39_40: W39_40 = W39_40,
    w_w39_41: W39_41 = W39_41,
    w_w39_42: W39_42 = W39_42,
    w_w39_43: W39_43 = W39_43,
    w_w39_44: W39_44 = W39_44,
    w_w39_45: W39_45 = W39_45,
    w_w39_46: W39_46 = W39_46,
    w_w39_47: W39_47 = W39_47,
    w_w39_48: W39_48 = W39_48,
    w_w39_49: W39_49 = W39_49,
    w_w39_50: W39_50 = W39_50,
    w_w39_51: W39_51 = W39_51,
    w_w39_52: W39_52 = W39_52,
    w_w39_53: W39_53 = W39_53,
    w_w39_54: W39_54 = W39_54,
    w_w39_55: W39_55 = W39_55,
    w_w39_56: W39_56 = W39_56,
    w_w39_57: W39_57 = W39_57,
    w_w39_58: W39_58 = W39_58,
    w_w39_59: W39_59 = W39_59,
    w_w39_60: W39_60 = W39_60,
    w_w39_61: W39_61 = W39_61,
    w_w39_62: W39_62 = W39_62,
    w_w39_63: W39_63 = W39_63,
    w_w39_64: W39_64 = W39_64,
    w_w39_65: W39_65 = W39_65,
    w_w39_66: W39_66 = W39_66,
    w_w39_67: W39_67 = W39_67,
    w_w39_68: W39_68 = W39_68,
    w_w39_69: W39_69 = W39_69,
    w_w39_70: W39_70 = W39_70,
    w_w39_71: W39_71 = W39_71,
    w_w39_72: W39_72 = W39_72,
    w_w39_73: W39_73 = W39_73,
    w_w39_74: W39_74 = W39_74,
    w_w39_75: W39_75 = W39_75,
    w_w39_76: W39_76 = W39_76,
    w_w39_77: W39_77 = W39_77,
    w_w39_78: W39_78 = W39_78,
    w_w39_79: W39_79 = W39_79,
    w_w39_80: W39_80 = W39_80,
    w_w39_81: W39_81 = W39_81,
    w_w39_82: W39_82 = W39_82,
    w_w39_83: W39_83 = W39_83,
    w_w39_84: W39_84 = W39_84,
    w_w39_85: W39_85 = W39_85,
    w_w39_86: W39_86 = W39_86,
    w_w39_87: W39_87 = W39_87,
    w_w39_88: W39_88 = W39_88,
    w_w39_89: W39_89 = W39_89,
    w_w39_90: W39_90 = W39_90,
    w_w39_91: W39_91 = W39_91,
    w_w39_92: W39_92 = W39_92,
    w_w39_93: W39_93 = W39_93,
    w_w39_94: W39_94 = W39_94,
    w_w39_95: W39_95 = W39_95,
    w_w39_96: W39_96 = W39_96,
    w_w39_97: W39_97 = W39_97,
    w_w48_1: W48_1 = W48_1,
    w_w48_2: W48_2 = W48_2,
    w_w48_3: W48_3 = W48_3,
    w_w48_4: W48_4 = W48_4,
    w_w48_5: W48_5 = W48_5,
    w_w48_6: W48_6 = W48_6,
    w_w48_7: W48_7 = W48_7,
    w_w48_8: W48_8 = W48_8,
    w_w48_9: W48_9 = W48_9,
    w_w48_10: W48_10 = W48_10,
    w_w48_11: W48_11 = W48_11,
    w_w48_12: W48_12 = W48_12,
    w_w48_13: W48_13 = W48_13,
    w_w48_14: W48_14 = W48_14,
    w_w48_15: W48_15 = W48_15,
    w_w48_16: W48_16 = W48_16,
    w_w48_17: W48_17 = W48_17,
    w_w48_18: W48_18 = W48_18,
    w_w48_19: W48_19 = W48_19,
    w_w48_20: W48_20 = W48_20,
    w_w48_21: W48_21 = W48_21,
    w_w48_22: W48_22 = W48_22,
    w_w48_23: W48_23 = W48_23,
    w_w48_24: W48_24 = W48_24,
    w_w48_25: W48_25 = W48_25,
    w_w48_26: W48_26 = W48_26,
    w_w48_27: W48_27 = W48_27,
    w_w48_28: W48_28 = W48_28,
    w_w48_29: W48_29 = W48_29,
    w_w48_30: W48_30 = W48_30,
    w_w48_31: W48_31 = W48_31,
    w_w48_32: W48_32 = W48_32,
    w_w48_33: W48_33 = W48_33,
    w_w48_34: W48_34 = W48_34,
    w_w48_35: W48_35 = W48_35,
    w_w48_36: W48_36 = W48_36,
    w_w48_37: W48_37 = W48_37,
    w_w48_38: W48_38 = W48_38,
    w_w48_39: W48_39 = W48_39,
    w_w48_40: W48_40 = W48_40,
    w_w48_41: W48_41 = W48_41,
    w_w48_42: W48_42 = W48_42,
    w_w48_43: W48_43 = W48_43,
    w_w48_44: W48_44 = W48_44,
    w_w48_45: W48_45 = W48_45,
    w_w48_46: W48_46 = W48_46,
    w_w48_47: W48_47 = W48_47,
    w_w48_48: W48_48 = W48_48,
    w_w48_49: W48_49 = W48_49,
    w_w48_50: W48_50 = W48_50,
    w_w48_51: W48_51 = W48_51,
    w_w48_52: W48_52 = W48_52,
    w_w48_53: W48_53 = W48_53,
    w_w48_54: W48_54 = W48_54,
    w_w48_55: W48_55 = W48_55,
    w_w48_56: W48_56 = W48_56,
    w_w48_57: W48_57 = W48_57,
    w_w48_58: W48_58 = W48_58,
    w_w48_59: W48_59 = W48_59,
    w_w48_60: W48_60 = W48_60,
    w_w48_61: W48_61 = W48_61,
    w_w48_62: W48_62 = W48_62,
    w_w48_63: W48_63 = W48_63,
    w_w48_64: W48_64 = W48_64,
    w_w48_65: W48_65 = W48_65,
    w_w48_66: W48_66 = W48_66,
    w_w48_67: W48_67 = W48_67,
    w_w48_68: W48_68 = W48_68,
    w_w48_69: W48_69 = W48_69,
    w_w48_70: W48_70 = W48_70,
    w_w48_71: W48_71 = W48_71,
    w_w48_72: W48_72 = W48_72,
    w_w48_73: W48_73 = W48_73,
    w_w48_74: W48_74 = W48_74,
    w_w48_75: W48_75 = W48_75,
    w_w48_76: W48_76 = W48_76,
    w_w48_77: W48_77 = W48_77,
    w_w48_78: W48_78 = W48_78,
    w_w48_79: W48_79 = W48_79,
    w_w48_80: W48_80 = W48_80,
    w_w48_81: W48_81 = W48_81,
    w_w48_82: W48_82 = W48_82,
    w_w48_83: W48_83 = W48_83,
    w_w48_84: W48_84 = W48_84,
    w_w48_85: W48_85 = W48_85,
    w_w48_86: W48_86 = W48_86,
    w_w48_87: W48_87 = W48_87,
    w_w48_88: W48_88 = W48_88,
    w_w48_89: W48_89 = W48_89,
    w_w48_90: W48_90 = W48_90,
    w_w48_91: W48_91 = W48_91,
    w_w48_92: W48_92 = W48_92,
    w_w48_93: W48_93 = W48_93,
    w_w48_94: W48_94 = W48_94,
    w_w48_95: W48_95 = W48_95,
    w_w48_96: W48_96 = W48_96,
    w_w48_97: W48_97 = W48_97,
    w_repr1: Repr1 = Repr1,
    w_repr2: Repr2 = Repr2,
    w_w38_1: W38_1 = W38_1,
    w_w38_2: W38_2 = W38_2,
    w_w38_3: W38_3 = W38_3,
    w_w38_4: W38_4 = W38_4,
    w_w38_5: W38_5 = W38_5,
    w_w38_6: W38_6 = W38_6,
    w_w38_7: W38_7 = W38_7,
    w_w38_8: W38_8 = W38_8,
    w_w38_9: W38_9 = W38_9,
    w_w38_10: W38_10 = W38_10,
    w_w38_11: W38_11 = W38_11,
    w_w38_12: W38_12 = W38_12,
    w_w38_13: W38_13 = W38_13,
    w_w38_14: W38_14 = W38_14,
    w_w38_15: W38_15 = W38_15,
    w_w38_16: W38_16 = W38_16,
    w_w38_17: W38_17 = W38_17,
    w_w38_18: W38_18 = W38_18,
    w_w38_19: W38_19 = W38_19,
    w_w38_20: W38_20 = W38_20,
    w_w38_21: W38_21 = W38_21,
    w_w38_22: W38_22 = W38_22,
    w_w38_23: W38_23 = W38_23,
    w_w38_24: W38_24 = W38_24,
    w_w38_25: W38_25 = W38_25,
    w_w38_26: W38_26 = W38_26,
    w_w38_27: W38_27 = W38_27,
    w_w38_28: W38_28 = W38_28,
    w_w38_29: W38_29 = W38_29,
    w_w38_30: W38_30 = W38_30,
    w_w38_31: W38_31 = W38_31,
    w_w38_32: W38_32 = W38_32,
    w_w38_33: W38_33 = W38_33,
    w_w38_34: W38_34 = W38_34,
    w_w38_35: W38_35 = W38_35,
    w_w38_36: W38_36 = W38_36,
    w_w38_37: W38_37 = W38_37,
    w_w38_38: W38_38 = W38_38,
    w_w38_39: W38_39 = W38_39,
    w_w38_40: W38_40 = W38_40,
    w_w38_41: W38_41 = W38_41,
    w_w38_42: W38_42 = W38_42,
    w_w38_43: W38_43 = W38_43,
    w_w38_44: W38_44 = W38_44,
    w_w38_45: W38_45 = W38_45,
    w_w38_46: W38_46 = W38_46,
    w_w38_47: W38_47 = W38_47,
    w_w38_48: W38_48 = W38_48,
    w_w38_49: W38_49 = W38_49,
    w_w38_50: W38_50 = W38_50,
    w_w38_51: W38_51 = W38_51,
    w_w38_52: W38_52 = W38_52,
    w_w38_53: W38_53 = W38_53,
    w_w38_54: W38_54 = W38_54,
    w_w38_55: W38_55 = W38_55,
    w_w38_56: W38_56 = W38_56,
    w_w38_57: W38_57 = W38_57,
    w_w38_58: W38_58 = W38_58,
    w_w38_59: W38_59 = W38_59,
    w_w38_60: W38_60 = W38_60,
    w_w38_61: W38_61 = W38_61,
    w_w38_62: W38_62 = W38_62,
    w_w38_63: W38_63 = W38_63,
    w_w38_64: W38_64 = W38_64,
    w_w38_65: W38_65 = W38_65,
    w_w38_66: W38_66 = W38_66,
    w_w38_67: W38_67 = W38_67,
    w_w38_68: W38_68 = W38_68,
    w_w38_69: W38_69 = W38_69,
    w_w38_70: W38_70 = W38_70,
    w_w38_71: W38_71 = W38_71,
    w_w38_72: W38_72 = W38_72,
    w_w38_73: W38_73 = W38_73,
    w_w38_74: W38_74 = W38_74,
    w_w38_75: W38_75 = W38_75,
    w_w38_76: W38_76 = W38_76,
    w_w38_77: W38_77 = W38_77,
    w_w38_78: W38_78 = W38_78,
    w_w38_79: W38_79 = W38_79,
    w_w38_80: W38_80 = W38_80,
    w_w38_81: W38_81 = W38_81,
    w_w38_82: W38_82 = W38_82,
    w_w38_83: W38_83 = W38_83,
    w_w38_84: W38_84 = W38_84,
    w_w38_85: W38_85 = W38_85,
    w_w38_86: W38_86 = W38_86,
    w_w38_87: W38_87 = W38_87,
    w_w38_88: W38_88 = W38_88,
    w_w38_89: W38_89 = W38_89,
    w_w38_90: W38_90 = W38_90,
    w_w38_91: W38_91 = W38_91,
    w_w38_92: W38_92 = W38_92,
    w_w38_93: W38_93 = W38_93,
    w_w38_94: W38_94 = W38_94,
    w_w38_95: W38_95 = W38_95,
    w_w38_96: W38_96 = W38_96,
    w_w38_97: W38_97 = W38_97,
    w_w38_98: W38_98 = W38_98,
    w_w38_99: W38_99 = W38_99,
    w_w38_100: W38_100 = W38_100,
    w_w38_101: W38_101 = W38_101,
    w_w38_102: W38_102 = W38_102,
    w_w38_103: W38_103 = W38_103,
    w_w38_104: W38_104 = W38_104,
    w_w38_105: W38_105 = W38_105,
    w_w38_106: W38_106 = W38_106,
    w_w38_107: W38_107 = W38_107,
    w_w38_108: W38_108 = W38_108,
    w_w38_109: W38_109 = W38_109,
    w_w38_110: W38_110 = W38_110,
    w_w38_111: W38_111 = W38_111,
    w_w38_112: W38_112 = W38_112,
    w_w38_113: W38_113 = W38_113,
    w_w38_114: W38_114 = W38_114,
    w_w38_115: W38_115 = W38_115,
    w_w38_116: W38_116 = W38_116,
    w_w38_117: W38_117 = W38_117,
    w_w38_118: W38_118 = W38_118,
    w_w38_119: W38_119 = W38_119,
    w_w38_120: W38_120 = W38_120,
    w_w38_121: W38_121 = W38_121,
    w_w38_122: W38_122 = W38_122,
    w_w38_123: W38_123 = W38_123,
    w_w38_124: W38_124 = W38_124,
    w_w38_125: W38_125 = W38_125,
    w_w38_126: W38_126 = W38_126,
    w_w38_127: W38_127 = W38_127,
    w_w38_128: W38_128 = W38_128,
    w_w38_129: W38_129 = W38_129,
    w_w38_130: W38_130 = W38_130,
    w_w38_131: W38_131 = W38_131,
    w_w38_132: W38_132 = W38_132,
    w_w38_133: W38_133 = W38_133,
    w_w38_134: W38_134 = W38_134,
    w_w38_135: W38_135 = W38_135,
    w_w38_136: W38_136 = W38_136,
    w_w38_137: W38_137 = W38_137,
    w_w38_138: W38_138 = W38_138,
    w_w38_139: W38_139 = W38_139,
    w_w38_140: W38_140 = W38_140,
    w_w38_141: W38_141 = W38_141,
    w_w38_142: W38_142 = W38_142,
    w_w38_143: W38_143 = W38_143,
    w_w38_144: W38_144 = W38_144,
    w_w38_145: W38_145 = W38_145,
    w_w38_146: W38_146 = W38_146,
    w_w38_147: W38_147 = W38_147,
    w_w38_148: W38_148 = W38_148,
    w_w38_149: W38_149 = W38_149,
    w_w38_150: W38_150 = W38_150,
    w_w38_151: W38_151 = W38_151,
    w_w38_152: W38_152 = W38_152,
    w_w38_153: W38_153 = W38_153,
    w_w38_154: W38_154 = W38_154,
    w_w38_155: W38_155 = W38_155,
    w_w38_156: W38_156 = W38_156,
    w_w38_157: W38_157 = W38_157,
    w_w38_158: W38_158 = W38_158,
    w_w38_159: W38_159 = W38_159,
    w_w38_160: W38_160 = W38_160,
    w_w38_161: W38_161 = W38_161,
    w_w38_162: W38_162 = W38_162,
    w_w38_163: W38_163 = W38_163,
    w_w38_164: W38_164 = W38_164,
    w_w38_165: W38_165 = W38_165,
    w_w38_166: W38_166 = W38_166,
    w_w38_167: W38_167 = W38_167,
    w_w38_168: W38_168 = W38_168,
    w_w38_169: W38_169 = W38_169,
    w_w38_170: W38_170 = W38_170,
    w_w38_171: W38_171 = W38_171,
    w_w38_172: W38_172 = W38_172,
    w_w38_173: W38_173 = W38_173,
    w_w38_174: W38_174 = W38_174,
    w_w38_175: W38_175 = W38_175,
    w_w38_176: W38_176 = W38_176,
    w_w38_177: W38_177 = W38_177,
    w_w38_178: W38_178 = W38_178,
    w_w38_179: W38_179 = W38_179,
    w_w38_180: W38_180 = W38_180,
    w_w38_181: W38_181 = W38_181,
    w_w38_182: W38_182 = W38_182,
    w_w38_183: W38_183 = W38_183,
    w_w38_184: W38_184 = W38_184,
    w_w38_185: W38_185 = W38_185,
    w_w38_186: W38_186 = W38_186,
    w_w38_187: W38_187 = W38_187,
    w_w38_188: W38_188 = W38_188,
    w_w38_189: W38_189 = W38_189,
    w_w38_190: W38_190 = W38_190,
    w_w38_191: W38_191 = W38_191,
    w_w38_192: W38_192 = W38_192,
    w_w38_193: W38_193 = W38_193,
    w_w38_194: W38_194 = W38_194,
    w_w38_195: W38_195 = W38_195,
    w_w38_196: W38_196 = W38_196,
    w_w38_197: W38_197 = W38_197,
    w_w38_198: W38_198 = W38_198,
    w_w38_199: W38_199 = W38_199,
    w_w38_200: W38_200 = W38_200,
    w_w38_201: W38_201 = W38_201,
    w_w38_202: W38_202 = W38_202,
    w_w38_203: W38_203 = W38_203,
    w_w38_204: W38_204 = W38_204,
    w_w38_205: W38_205 = W38_205,
    w_w38_206: W38_206 = W38_206,
    w_w38_207: W38_207 = W38_207,
    w_w38_208: W38_208 = W38_208,
    w_w38_209: W38_209 = W38_209,
    w_w38_210: W38_210 = W38_210,
    w_w38_211: W38_211 = W38_211,
    w_w38_212: W38_212 = W38_212,
    w_w38_213: W38_213 = W38_213,
    w_w38_214: W38_214 = W38_214,
    w_w38_215: W38_215 = W38_215,
    w_w38_216: W38_216 = W38_216,
    w_w38_217: W38_217 = W38_217,
    w_w38_218: W38_218 = W38_218,
    w_w38_219: W38_219 = W38_219,
    w_w38_220: W38_220 = W38_220,
    w_w38_221: W38_221 = W38_221,
    w_w38_222: W38_222 = W38_222,
    w_w38_223: W38_223 = W38_223,
    w_w38_224: W38_224 = W38_224,
    w_w40_1: W40_1 = W40_1,
    w_w40_2: W40_2 = W40_2,
    w_w40_3: W40_3 = W40_3,
    w_w40_4: W40_4 = W40_4,
    w_w40_5: W40_5 = W40_5,
    w_w40_6: W40_6 = W40_6,
    w_w40_7: W40_7 = W40_7,
    w_w40_8: W40_8 = W40_8,
    w_w40_9: W40_9 = W40_9,
    w_w40_10: W40_10 = W40_10,
    w_w40_11: W40_11 = W40_11,
    w_w40_12: W40_12 = W40_12,
    w_w40_13: W40_13 = W40_13,
    w_w40_14: W40_14 = W40_14,
    w_w40_15: W40_15 = W40_15,
    w_w40_16: W40_16 = W40_16,
    w_w40_17: W40_17 = W40_17,
    w_w40_18: W40_18 = W40_18,
    w_w40_19: W40_19 = W40_19,
    w_w40_20: W40_20 = W40_20,
    w_w40_21: W40_21 = W40_21,
    w_w40_22: W40_22 = W40_22,
    w_w40_23: W40_23 = W40_23,
    w_w40_24: W40_24 = W40_24,
    w_w40_25: W40_25 = W40_25,
    w_w40_26: W40_26 = W40_26,
    w_w40_27: W40_27 = W40_27,
    w_w40_28: W40_28 = W40_28,
    w_w40_29: W40_29 = W40_29,
    w_w40_30: W40_30 = W40_30,
    w_w40_31: W40_31 = W40_31,
    w_w40_32: W40_32 = W40_32,
    w_w40_33: W40_33 = W40_33,
    w_w40_34: W40_34 = W40_34,
    w_w40_35: W40_35 = W40_35,
    w_w40_36: W40_36 = W40_36,
    w_w40_37: W40_37 = W40_37,
    w_w40_38: W40_38 = W40_38,
    w_w40_39: W40_39 = W40_39,
    w_w40_40: W40_40 = W40_40,
    w_w40_41: W40_41 = W40_41,
    w_w40_42: W40_42 = W40_42,
    w_w40_43: W40_43 = W40_43,
    w_w40_44: W40_44 = W40_44,
    w_w40_45: W40_45 = W40_45,
    w_w40_46: W40_46 = W40_46,
    w_w40_47: W40_47 = W40_47,
    w_w40_48: W40_48 = W40_48,
    w_w40_49: W40_49 = W40_49,
    w_w40_50: W40_50 = W40_50,
    w_w40_51: W40_51 = W40_51,
    w_w40_52: W40_52 = W40_52,
    w_w45_2: W45_2 = W45_2,
    w_w45_3: W45_3 = W45_3,
    w_w45_p: W45_p = W45_p,
    w_w45_d: W45_d = W45_d,
    w_w45_e: W45_e = W45_e,
    w_w45_i: W45_i = W45_i,
    w_w31_274: W31_274 = W31_274,
    w_w31_275: W31_275 = W31_275,
    w_w31_276: W31_276 = W31_276,
    w_w31_277: W31_277 = W31_277,
    w_w31_278: W31_278 = W31_278,
    w_w31_279: W31_279 = W31_279,
    w_w31_280: W31_280 = W31_280,
    w_w31_281: W31_281 = W31_281,
    w_w31_282: W31_282 = W31_282,
    w_w31_283: W31_283 = W31_283,
    w_w31_284: W31_284 = W31_284,
    w_w31_285: W31_285 = W31_285,
    w_w31_286: W31_286 = W31_286,
    w_w31_287: W31_287 = W31_287,
    w_w31_288: W31_288 = W31_288,
    w_w31_289: W31_289 = W31_289,
    w_w31_290: W31_290 = W31_290,
    w_w31_291: W31_291 = W31_291,
    w_w31_292: W31_292 = W31_292,
    w_w31_293: W31_293 = W31_293,
    w_w31_294: W31_294 = W31_294,
    w_w31_295: W31_295 = W31_295,
    w_w31_296: W31_296 = W31_296,
    w_w31_297: W31_297 = W31_297,
    w_w31_298: W31_298 = W31_298,
    w_w31_299: W31_299 = W31_299,
    w_w31_300: W31_300 = W31_300,
    w_w31_301: W31_301 = W31_301,
    w_w31_302: W31_302 = W31_302,
    w_w31_303: W31_303 = W31_303,
    w_w31_304: W31_304 = W31_304,
    w_w31_305: W31_305 = W31_305,
    w_w31_306: W31_306 = W31_306,
    w_w31_307: W31_307 = W31_307,
    w_w31_308: W31_308 = W31_308,
    w_w31_309: W31_309 = W31_309,
    w_w31_310: W31_310 = W31_310,
    w_w31_311: W31_311 = W31_311,
    w_w31_312: W31_312 = W31_312,
    w_w31_313: W31_313 = W31_313,
    w_w31_314: W31_314 = W31_314,
    w_w31_315: W31_315 = W31_315,
    w_w31_316: W31_316 = W31_316,
    w_w31_317: W31_317 = W31_317,
    w_w31_318: W31_318 = W31_318,
    w_w31_319: W31_319 = W31_319,
    w_w31_320: W31_320 = W31_320,
    w_w31_321: W31_321 = W31_321,
    w_w31_322: W31_322 = W31_322,
    w_w31_323: W31_323 = W31_323,
    w_w31_324: W31_324 = W31_324,
    w_w31_325: W31_325 = W31_325,
    w_w31_326: W31_326 = W31_326,
    w_w31_327: W31_327 = W31_327,
    w_w31_328: W31_328 = W31_328,
    w_w31_329: W31_329 = W31_329,
    w_w31_330: W31_330 = W31_330,
    w_w31_331: W31_331 = W31_331,
    w_w31_332: W31_332 = W31_332,
    w_w31_333: W31_333 = W31_333,
    w_w31_334: W31_334 = W31_334,
    w_w31_335: W31_335 = W31_335,
    w_w31_336: W31_336 = W31_336,
    w_w31_337: W31_337 = W31_337,
    w_w31_338: W31_338 = W31_338,
    w_w31_339: W31_339 = W31_339,
    w_w31_340: W31_340 = W31_340,
    w_w31_341: W31_341 = W31_341,
    w_w31_342: W31_342 = W31_342,
    w_w31_343: W31_343 = W31_343,
    w_w31_344: W31_344 = W31_344,
    w_w31_345: W31_345 = W31_345,
    w_w33_518: W33_518 = W33_518,
    w_w33_519: W33_519 = W33_519,
    w_w33_520: W33_520 = W33_520,
    w_w33_521: W33_521 = W33_521,
    w_w33_522: W33_522 = W33_522,
    w_w33_523: W33_523 = W33_523,
    w_w33_524: W33_524 = W33_524,
    w_w33_525: W33_525 = W33_525,
    w_w33_526: W33_526 = W33_526,
    w_w31_346: W31_346 = W31_346,
    w_w31_347: W31_347 = W31_347,
    w_w31_348: W31_348 = W31_348,
    w_w31_349: W31_349 = W31_349,
    w_w31_350: W31_350 = W31_350,
    w_w31_351: W31_351 = W31_351,
    w_w31_352: W31_352 = W31_352,
    w_w31_353: W31_353 = W31_353,
    w_w31_354: W31_354 = W31_354,
    w_w31_355: W31_355 = W31_355,
    w_w31_356: W31_356 = W31_356,
    w_w31_357: W31_357 = W31_357,
    w_w31_358: W31_358 = W31_358,
    w_w31_359: W31_359 = W31_359,
    w_w31_360: W31_360 = W31_360,
    w_w31_361: W31_361 = W31_361,
    w_w31_362: W31_362 = W31_362,
    w_w31_363: W31_363 = W31_363,
    w_w31_364: W31_364 = W31_364,
    w_w31_365: W31_365 = W31_365,
    w_w31_366: W31_366 = W31_366,
    w_w31_367: W31_367 = W31_367,
    w_w31_368: W31_368 = W31_368,
    w_w31_369: W31_369 = W31_369,
    w_w31_370: W31_370 = W31_370,
    w_w31_371: W31_371 = W31_371,
    w_w31_372: W31_372 = W31_372,
    w_w31_373: W31_373 = W31_373,
    w_w31_374: W31_374 = W31_374,
    w_w31_375: W31_375 = W31_375,
    w_w31_376: W31_376 = W31_376,
    w_w31_377: W31_377 = W31_377,
    w_w31_378: W31_378 = W31_378,
    w_w31_379: W31_379 = W31_379,
    w_w31_380: W31_380 = W31_380,
    w_w31_381: W31_381 = W31_381,
    w_w33_527: W33_527 = W33_527,
    w_w33_528: W33_528 = W33_528,
    w_w33_529: W33_529 = W33_529,
    w_w33_530: W33_530 = W33_530,
    w_w33_531: W33_531 = W33_531,
    w_w33_532: W33_532 = W33_532,
    w_w33_533: W33_533 = W33_533,
    w_w33_534: W33_534 = W33_534,
    w_w33_535: W33_535 = W33_535,
    w_w31_382: W31_382 = W31_382,
    w_w31_383: W31_383 = W31_383,
    w_w31_384: W31_384 = W31_384,
    w_w31_385: W31_385 = W31_385,
    w_w31_386: W31_386 = W31_386,
    w_w31_387: W31_387 = W31_387,
    w_w31_388: W31_388 = W31_388,
    w_w31_389: W31_389 = W31_389,
    w_w31_390: W31_390 = W31_390,
    w_w31_391: W31_391 = W31_391,
    w_w31_392: W31_392 = W31_392,
    w_w31_393: W31_393 = W31_393,
    w_w31_394: W31_394 = W31_394,
    w_w31_395: W31_395 = W31_395,
    w_w31_396: W31_396 = W31_396,
    w_w31_397: W31_397 = W31_397,
    w_w31_398: W31_398 = W31_398,
    w_w31_399: W31_399 = W31_399,
    w_w31_400: W31_400 = W31_400,
    w_w31_401: W31_401 = W31_401,
    w_w31_402: W31_402 = W31_402,
    w_w31_403: W31_403 = W31_403,
    w_w31_404: W31_404 = W31_404,
    w_w31_405: W31_405 = W31_405,
    w_w31_406: W31_406 = W31_406,
    w_w31_407: W31_407 = W31_407,
    w_w31_408: W31_408 = W31_408,
    w_w31_409: W31_409 = W31_409,
    w_w31_410: W31_410 = W31_410,
    w_w31_411: W31_411 = W31_411,
    w_w31_412: W31_412 = W31_412,
    w_w31_413: W31_413 = W31_413,
    w_w31_414: W31_414 = W31_414,
    w_w31_415: W31_415 = W31_415,
    w_w31_416: W31_416 = W31_416,
    w_w31_417: W31_417 = W31_417,
    w_w33_536: W33_536 = W33_536,
    w_w33_537: W33_537 = W33_537,
    w_w33_538: W33_538 = W33_538,
    w_w33_539: W33_539 = W33_539,
    w_w33_540: W33_540 = W33_540,
    w_w33_541: W33_541 = W33_541,
    w_w33_542: W33_542 = W33_542,
    w_w33_543: W33_543 = W33_543,
    w_w33_544: W33_544 = W33_544,
    w_w31_418: W31_418 = W31_418,
    w_w31_419: W31_419 = W31_419,
    w_w31_420: W31_420 = W31_420,
    w_w31_421: W31_421 = W31_421,
    w_w31_422: W31_422 = W31_422,
    w_w31_423: W31_423 = W31_423,
    w_w31_424: W31_424 = W31_424,
    w_w31_425: W31_425 = W31_425,
    w_w31_426: W31_426 = W31_426,
    w_w31_427: W31_427 = W31_427,
    w_w31_428: W31_428 = W31_428,
    w_w31_429: W31_429 = W31_429,
    w_w31_430: W31_430 = W31_430,
    w_w31_431: W31_431 = W31_431,
    w_w31_432: W31_432 = W31_432,
    w_w31_433: W31_433 = W31_433,
    w_w31_434: W31_434 = W31_434,
    w_w31_435: W31_435 = W31_435,
    w_w31_436: W31_436 = W31_436,
    w_w31_437: W31_437 = W31_437,
    w_w31_438: W31_438 = W31_438,
    w_w31_439: W31_439 = W31_439,
    w_w31_440: W31_440 = W31_440,
    w_w31_441: W31_441 = W31_441,
    w_w31_442: W31_442 = W31_442,
    w_w31_443: W31_443 = W31_443,
    w_w31_444: W31_444 = W31_444,
    w_w31_445: W31_445 = W31_445,
    w_w31_446: W31_446 = W31_446,
    w_w31_447: W31_447 = W31_447,
    w_w31_448: W31_448 = W31_448,
    w_w31_449: W31_449 = W31_449,
    w_w31_450: W31_450 = W31_450,
    w_w31_451: W31_451 = W31_451,
    w_w31_452: W31_452 = W31_452,
    w_w31_453: W31_453 = W31_453,
    w_w33_545: W33_545 = W33_545,
    w_w33_546: W33_546 = W33_546,
    w_w33_547: W33_547 = W33_547,
    w_w33_548: W33_548 = W33_548,
    w_w33_549: W33_549 = W33_549,
    w_w33_550: W33_550 = W33_550,
    w_w33_551: W33_551 = W33_551,
    w_w33_552: W33_552 = W33_552,
    w_w33_553: W33_553 = W33_553,
    w_w31_454: W31_454 = W31_454,
    w_w31_455: W31_455 = W31_455,
    w_w31_456: W31_456 = W31_456,
    w_w31_457: W31_457 = W31_457,
    w_w31_458: W31_458 = W31_458,
    w_w31_459: W31_459 = W31_459,
    w_w31_460: W31_460 = W31_460,
    w_w31_461: W31_461 = W31_461,
    w_w31_462: W31_462 = W31_462,
    w_w31_463: W31_463 = W31_463,
    w_w31_464: W31_464 = W31_464,
    w_w31_465: W31_465 = W31_465,
    w_w31_466: W31_466 = W31_466,
    w_w31_467: W31_467 = W31_467,
    w_w31_468: W31_468 = W31_468,
    w_w31_469: W31_469 = W31_469,
    w_w31_470: W31_470 = W31_470,
    w_w31_471: W31_471 = W31_471,
    w_w31_472: W31_472 = W31_472,
    w_w31_473: W31_473 = W31_473,
    w_w31_474: W31_474 = W31_474,
    w_w31_475: W31_475 = W31_475,
    w_w31_476: W31_476 = W31_476,
    w_w31_477: W31_477 = W31_477,
    w_w31_478: W31_478 = W31_478,
    w_w31_479: W31_479 = W31_479,
    w_w31_480: W31_480 = W31_480,
    w_w31_481: W31_481 = W31_481,
    w_w31_482: W31_482 = W31_482,
    w_w31_483: W31_483 = W31_483,
    w_w31_484: W31_484 = W31_484,
    w_w31_485: W31_485 = W31_485,
    w_w31_486: W31_486 = W31_486,
    w_w31_487: W31_487 = W31_487,
    w_w31_488: W31_488 = W31_488,
    w_w31_489: W31_489 = W31_489,
    w_w33_554: W33_554 = W33_554,
    w_w33_555: W33_555 = W33_555,
    w_w33_556: W33_556 = W33_556,
    w_w33_557: W33_557 = W33_557,
    w_w33_558: W33_558 = W33_558,
    w_w33_559: W33_559 = W33_559,
    w_w33_560: W33_560 = W33_560,
    w_w33_561: W33_561 = W33_561,
    w_w33_562: W33_562 = W33_562,
    w_w31_490: W31_490 = W31_490,
    w_w31_491: W31_491 = W31_491,
    w_w31_492: W31_492 = W31_492,
    w_w31_493: W31_493 = W31_493,
    w_w31_494: W31_494 = W31_494,
    w_w31_495: W31_495 = W31_495,
    w_w31_496: W31_496 = W31_496,
    w_w31_497: W31_497 = W31_497,
    w_w31_498: W31_498 = W31_498,
    w_w31_499: W31_499 = W31_499,
    w_w31_500: W31_500 = W31_500,
    w_w31_501: W31_501 = W31_501,
    w_w31_502: W31_502 = W31_502,
    w_w31_503: W31_503 = W31_503,
    w_w31_504: W31_504 = W31_504,
    w_w31_505: W31_505 = W31_505,
    w_w31_506: W31_506 = W31_506,
    w_w31_507: W31_507 = W31_507,
    w_w31_508: W31_508 = W31_508,
    w_w31_509: W31_509 = W31_509,
    w_w31_510: W31_510 = W31_510,
    w_w31_511: W31_511 = W31_511,
    w_w31_512: W31_512 = W31_512,
    w_w31_513: W31_513 = W31_513,
    w_w31_514: W31_514 = W31_514,
    w_w31_515: W31_515 = W31_515,
    w_w31_516: W31_516 = W31_516,
    w_w31_517: W31_517 = W31_517,
    w_w31_518: W31_518 = W31_518,
    w_w31_519: W31_519 = W31_519,
    w_w31_520: W31_520 = W31_520,
    w_w31_521: W31_521 = W31_521,
    w_w31_522: W31_522 = W31_522,
    w_w31_523: W31_523 = W31_523,
    w_w31_524: W31_524 = W31_524,
    w_w31_525: W31_525 = W31_525,
    w_w33_563: W33_563 = W33_563,
    w_w33_564: W33_564 = W33_564,
    w_w33_565: W33_565 = W33_565,
    w_w33_566: W33_566 = W33_566,
    w_w33_567: W33_567 = W33_567,
    w_w33_568: W33_568 = W33_568,
    w_w33_569: W33_569 = W33_569,
    w_w33_570: W33_570 = W33_570,
    w_w33_571: W33_571 = W33_571,
    w_w31_526: W31_526 = W31_526,
    w_w31_527: W31_527 = W31_527,
    w_w31_528: W31_528 = W31_528,
    w_w31_529: W31_529 = W31_529,
    w_w31_530: W31_530 = W31_530,
    w_w31_531: W31_531 = W31_531,
    w_w31_532: W31_532 = W31_532,
    w_w31_533: W31_533 = W31_533,
    w_w31_534: W31_534 = W31_534,
    w_w31_535: W31_535 = W31_535,
    w_w31_536: W31_536 = W31_536,
    w_w31_537: W31_537 = W31_537,
    w_w31_538: W31_538 = W31_538,
    w_w31_539: W31_539 = W31_539,
    w_w31_540: W31_540 = W31_540,
    w_w31_541: W31_541 = W31_541,
    w_w31_542: W31_542 = W31_542,
    w_w31_543: W31_543 = W31_543,
    w_w31_544: W31_544 = W31_544,
    w_w31_545: W31_545 = W31_545,
    w_w31_546: W31_546 = W31_546,
    w_w31_547: W31_547 = W31_547,
    w_w31_548: W31_548 = W31_548,
    w_w31_549: W31_549 = W31_549,
    w_w31_550: W31_550 = W31_550,
    w_w31_551: W31_551 = W31_551,
    w_w31_552: W31_552 = W31_552,
    w_w31_553: W31_553 = W31_553,
    w_w31_554: W31_554 = W31_554,
    w_w31_555: W31_555 = W31_555,
    w_w31_556: W31_556 = W31_556,
    w_w31_557: W31_557 = W31_557,
    w_w31_558: W31_558 = W31_558,
    w_w31_559: W31_559 = W31_559,
    w_w31_560: W31_560 = W31_560,
    w_w31_561: W31_561 = W31_561,
    w_w33_572: W33_572 = W33_572,
    w_w33_573: W33_573 = W33_573,
    w_w33_574: W33_574 = W33_574,
    w_w33_575: W33_575 = W33_575,
    w_w33_576: W33_576 = W33_576,
    w_w33_577: W33_577 = W33_577,
    w_w33_578: W33_578 = W33_578,
    w_w33_579: W33_579 = W33_579,
    w_w33_580: W33_580 = W33_580,
    w_w31_562: W31_562 = W31_562,
    w_w31_563: W31_563 = W31_563,
    w_w31_564: W31_564 = W31_564,
    w_w31_565: W31_565 = W31_565,
    w_w31_566: W31_566 = W31_566,
    w_w31_567: W31_567 = W31_567,
    w_w31_568: W31_568 = W31_568,
    w_w31_569: W31_569 = W31_569,
    w_w31_570: W31_570 = W31_570,
    w_w31_571: W31_571 = W31_571,
    w_w31_572: W31_572 = W31_572,
    w_w31_573: W31_573 = W31_573,
    w_w31_574: W31_574 = W31_574,
    w_w31_575: W31_575 = W31_575,
    w_w31_576: W31_576 = W31_576,
    w_w31_577: W31_577 = W31_577,
    w_w31_578: W31_578 = W31_578,
    w_w31_579: W31_579 = W31_579,
    w_w31_580: W31_580 = W31_580,
    w_w31_581: W31_581 = W31_581,
    w_w31_582: W31_582 = W31_582,
    w_w31_583: W31_583 = W31_583,
    w_w31_584: W31_584 = W31_584,
    w_w31_585: W31_585 = W31_585,
    w_w31_586: W31_586 = W31_586,
    w_w31_587: W31_587 = W31_587,
    w_w31_588: W31_588 = W31_588,
    w_w31_589: W31_589 = W31_589,
    w_w31_590: W31_590 = W31_590,
    w_w31_591: W31_591 = W31_591,
    w_w31_592: W31_592 = W31_592,
    w_w31_593: W31_593 = W31_593,
    w_w31_594: W31_594 = W31_594,
    w_w31_595: W31_595 = W31_595,
    w_w31_596: W31_596 = W31_596,
    w_w31_597: W31_597 = W31_597,
    w_w33_581: W33_581 = W33_581,
    w_w33_582: W33_582 = W33_582,
    w_w33_583: W33_583 = W33_583,
    w_w33_584: W33_584 = W33_584,
    w_w33_585: W33_585 = W33_585,
    w_w33_586: W33_586 = W33_586,
    w_w33_587: W33_587 = W33_587,
    w_w33_588: W33_588 = W33_588,
    w_w33_589: W33_589 = W33_589,
    w_w31_598: W31_598 = W31_598,
    w_w31_599: W31_599 = W31_599,
    w_w31_600: W31_600 = W31_600,
    w_w31_601: W31_601 = W31_601,
    w_w31_602: W31_602 = W31_602,
    w_w31_603: W31_603 = W31_603,
    w_w31_604: W31_604 = W31_604,
    w_w31_605: W31_605 = W31_605,
    w_w31_606: W31_606 = W31_606,
    w_w31_607: W31_607 = W31_607,
    w_w31_608: W31_608 = W31_608,
    w_w31_609: W31_609 = W31_609,
    w_w31_610: W31_610 = W31_610,
    w_w31_611: W31_611 = W31_611,
    w_w31_612: W31_612 = W31_612,
    w_w31_613: W31_613 = W31_613,
    w_w31_614: W31_614 = W31_614,
    w_w31_615: W31_615 = W31_615,
    w_w31_616: W31_616 = W31_616,
    w_w31_617: W31_617 = W31_617,
    w_w31_618: W31_618 = W31_618,
    w_w31_619: W31_619 = W31_619,
    w_w31_620: W31_620 = W31_620,
    w_w31_621: W31_621 = W31_621,
    w_w31_622: W31_622 = W31_622,
    w_w31_623: W31_623 = W31_623,
    w_w31_624: W31_624 = W31_624,
    w_w31_625: W31_625 = W31_625,
    w_w31_626: W31_626 = W31_626,
    w_w31_627: W31_627 = W31_627,
    w_w31_628: W31_628 = W31_628,
    w_w31_629: W31_629 = W31_629,
    w_w31_630: W31_630 = W31_630,
    w_w31_631: W31_631 = W31_631,
    w_w31_632: W31_632 = W31_632,
    w_w31_633: W31_633 = W31_633,
    w_w33_590: W33_590 = W33_590,
    w_w33_591: W33_591 = W33_591,
    w_w33_592: W33_592 = W33_592,
    w_w33_593: W33_593 = W33_593,
    w_w33_594: W33_594 = W33_594,
    w_w33_595: W33_595 = W33_595,
    w_w33_596: W33_596 = W33_596,
    w_w33_597: W33_597 = W33_597,
    w_w33_598: W33_598 = W33_598,
    w_w31_634: W31_634 = W31_634,
    w_w31_635: W31_635 = W31_635,
    w_w31_636: W31_636 = W31_636,
    w_w31_637: W31_637 = W31_637,
    w_w31_638: W31_638 = W31_638,
    w_w31_639: W31_639 = W31_639,
    w_w31_640: W31_640 = W31_640,
    w_w31_641: W31_641 = W31_641,
    w_w31_642: W31_642 = W31_642,
    w_w31_643: W31_643 = W31_643,
    w_w31_644: W31_644 = W31_644,
    w_w31_645: W31_645 = W31_645,
    w_w31_646: W31_646 = W31_646,
    w_w31_647: W31_647 = W31_647,
    w_w31_648: W31_648 = W31_648,
    w_w31_649: W31_649 = W31_649,
    w_w31_650: W31_650 = W31_650,
    w_w31_651: W31_651 = W31_651,
    w_w31_652: W31_652 = W31_652,
    w_w31_653: W31_653 = W31_653,
    w_w31_654: W31_654 = W31_654,
    w_w31_655: W31_655 = W31_655,
    w_w31_656: W31_656 = W31_656,
    w_w31_657: W31_657 = W31_657,
    w_w31_658: W31_658 = W31_658,
    w_w31_659: W31_659 = W31_659,
    w_w31_660: W31_660 = W31_660,
    w_w31_661: W31_661 = W31_661,
    w_w31_662: W31_662 = W31_662,
    w_w31_663: W31_663 = W31_663,
    w_w31_664: W31_664 = W31_664,
    w_w31_665: W31_665 = W31_665,
    w_w31_666: W31_666 = W31_666,
    w_w31_667: W31_667 = W31_667,
    w_w31_668: W31_668 = W31_668,
    w_w31_669: W31_669 = W31_669,
    w_w33_599: W33_599 = W33_599,
    w_w33_600: W33_600 = W33_600,
    w_w33_601: W33_601 = W33_601,
    w_w33_602: W33_602 = W33_602,
    w_w33_603: W33_603 = W33_603,
    w_w33_604: W33_604 = W33_604,
    w_w33_605: W33_605 = W33_605,
    w_w33_606: W33_606 = W33_606,
    w_w33_607: W33_607 = W33_607,
    w_w31_670: W31_670 = W31_670,
    w_w31_671: W31_671 = W31_671,
    w_w31_672: W31_672 = W31_672,
    w_w31_673: W31_673 = W31_673,
    w_w31_674: W31_674 = W31_674,
    w_w31_675: W31_675 = W31_675,
    w_w31_676: W31_676 = W31_676,
    w_w31_677: W31_677 = W31_677,
    w_w31_678: W31_678 = W31_678,
    w_w31_679: W31_679 = W31_679,
    w_w31_680: W31_680 = W31_680,
    w_w31_681: W31_681 = W31_681,
    w_w31_682: W31_682 = W31_682,
    w_w31_683: W31_683 = W31_683,
    w_w31_684: W31_684 = W31_684,
    w_w31_685: W31_685 = W31_685,
    w_w31_686: W31_686 = W31_686,
    w_w31_687: W31_687 = W31_687,
    w_w31_688: W31_688 = W31_688,
    w_w31_689: W31_689 = W31_689,
    w_w31_690: W31_690 = W31_690,
    w_w31_691: W31_691 = W31_691,
    w_w31_692: W31_692 = W31_692,
    w_w31_693: W31_693 = W31_693,
    w_w31_694: W31_694 = W31_694,
    w_w31_695: W31_695 = W31_695,
    w_w31_696: W31_696 = W31_696,
    w_w31_697: W31_697 = W31_697,
    w_w31_698: W31_698 = W31_698,
    w_w31_699: W31_699 = W31_699,
    w_w31_700: W31_700 = W31_700,
    w_w31_701: W31_701 = W31_701,
    w_w31_702: W31_702 = W31_702,
    w_w31_703: W31_703 = W31_703,
    w_w31_704: W31_704 = W31_704,
    w_w31_705: W31_705 = W31_705,
    w_w33_608: W33_608 = W33_608,
    w_w33_609: W33_609 = W33_609,
    w_w33_610: W33_610 = W33_610,
    w_w33_611: W33_611 = W33_611,
    w_w33_612: W33_612 = W33_612,
    w_w33_613: W33_613 = W33_613,
    w_w33_614: W33_614 = W33_614,
    w_w33_615: W33_615 = W33_615,
    w_w33_616: W33_616 = W33_616,
    w_w31_706: W31_706 = W31_706,
    w_w31_707: W31_707 = W31_707,
    w_w31_708: W31_708 = W31_708,
    w_w31_709: W31_709 = W31_709,
    w_w31_710: W31_710 = W31_710,
    w_w31_711: W31_711 = W31_711,
    w_w31_712: W31_712 = W31_712,
    w_w31_713: W31_713 = W31_713,
    w_w31_714: W31_714 = W31_714,
    w_w31_715: W31_715 = W31_715,
    w_w31_716: W31_716 = W31_716,
    w_w31_717: W31_717 = W31_717,
    w_w31_718: W31_718 = W31_718,
    w_w31_719: W31_719 = W31_719,
    w_w31_720: W31_720 = W31_720,
    w_w31_721: W31_721 = W31_721,
    w_w31_722: W31_722 = W31_722,
    w_w31_723: W31_723 = W31_723,
    w_w31_724: W31_724 = W31_724,
    w_w31_725: W31_725 = W31_725,
    w_w31_726: W31_726 = W31_726,
    w_w31_727: W31_727 = W31_727,
    w_w31_728: W31_728 = W31_728,
    w_w31_729: W31_729 = W31_729,
    w_w31_730: W31_730 = W31_730,
    w_w31_731: W31_731 = W31_731,
    w_w31_732: W31_732 = W31_732,
    w_w31_733: W31_733 = W31_733,
    w_w31_734: W31_734 = W31_734,
    w_w31_735: W31_735 = W31_735,
    w_w31_736: W31_736 = W31_736,
    w_w31_737: W31_737 = W31_737,
    w_w31_738: W31_738 = W31_738,
    w_w31_739: W31_739 = W31_739,
    w_w31_740: W31_740 = W31_740,
    w_w31_741: W31_741 = W31_741,
    w_w33_617: W33_617 = W33_617,
    w_w33_618: W33_618 = W33_618,
    w_w33_619: W33_619 = W33_619,
    w_w33_620: W33_620 = W33_620,
    w_w33_621: W33_621 = W33_621,
    w_w33_622: W33_622 = W33_622,
    w_w33_623: W33_623 = W33_623,
    w_w33_624: W33_624 = W33_624,
    w_w33_625: W33_625 = W33_625,
    w_w31_742: W31_742 = W31_742,
    w_w31_743: W31_743 = W31_743,
    w_w31_744: W31_744 = W31_744,
    w_w31_745: W31_745 = W31_745,
    w_w31_746: W31_746 = W31_746,
    w_w31_747: W31_747 = W31_747,
    w_w31_748: W31_748 = W31_748,
    w_w31_749: W31_749 = W31_749,
    w_w31_750: W31_750 = W31_750,
    w_w31_751: W31_751 = W31_751,
    w_w31_752: W31_752 = W31_752,
    w_w31_753: W31_753 = W31_753,
    w_w31_754: W31_754 = W31_754,
    w_w31_755: W31_755 = W31_755,
    w_w31_756: W31_756 = W31_756,
    w_w31_757: W31_757 = W31_757,
    w_w31_758: W31_758 = W31_758,
    w_w31_759: W31_759 = W31_759,
    w_w31_760: W31_760 = W31_760,
    w_w31_761: W31_761 = W31_761,
    w_w31_762: W31_762 = W31_762,
    w_w31_763: W31_763 = W31_763,
    w_w31_764: W31_764 = W31_764,
    w_w31_765: W31_765 = W31_765,
    w_w31_766: W31_766 = W31_766,
    w_w31_767: W31_767 = W31_767,
    w_w31_768: W31_768 = W31_768,
    w_w31_769: W31_769 = W31_769,
    w_w31_770: W31_770 = W31_770,
    w_w31_771: W31_771 = W31_771,
    w_w31_772: W31_772 = W31_772,
    w_w31_773: W31_773 = W31_773,
    w_w31_774: W31_774 = W31_774,
    w_w31_775: W31_775 = W31_775,
    w_w31_776: W31_776 = W31_776,
    w_w31_777: W31_777 = W31_777,
    w_w33_626: W33_626 = W33_626,
    w_w33_627: W33_627 = W33_627,
    w_w33_628: W33_628 = W33_628,
    w_w33_629: W33_629 = W33_629,
    w_w33_630: W33_630 = W33_630,
    w_w33_631: W33_631 = W33_631,
    w_w33_632: W33_632 = W33_632,
    w_w33_633: W33_633 = W33_633,
    w_w33_634: W33_634 = W33_634,
    w_w31_778: W31_778 = W31_778,
    w_w31_779: W31_779 = W31_779,
    w_w31_780: W31_780 = W31_780,
    w_w31_781: W31_781 = W31_781,
    w_w31_782: W31_782 = W31_782,
    w_w31_783: W31_783 = W31_783,
    w_w31_784: W31_784 = W31_784,
    w_w31_785: W31_785 = W31_785,
    w_w31_786: W31_786 = W31_786,
    w_w31_787: W31_787 = W31_787,
    w_w31_788: W31_788 = W31_788,
    w_w31_789: W31_789 = W31_789,
    w_w31_790: W31_790 = W31_790,
    w_w31_791: W31_791 = W31_791,
    w_w31_792: W31_792 = W31_792,
    w_w31_793: W31_793 = W31_793,
    w_w31_794: W31_794 = W31_794,
    w_w31_795: W31_795 = W31_795,
    w_w31_796: W31_796 = W31_796,
    w_w31_797: W31_797 = W31_797,
    w_w31_798: W31_798 = W31_798,
    w_w31_799: W31_799 = W31_799,
    w_w31_800: W31_800 = W31_800,
    w_w31_801: W31_801 = W31_801,
    w_w31_802: W31_802 = W31_802,
    w_w31_803: W31_803 = W31_803,
    w_w31_804: W31_804 = W31_804,
    w_w31_805: W31_805 = W31_805,
    w_w31_806: W31_806 = W31_806,
    w_w31_807: W31_807 = W31_807,
    w_w31_808: W31_808 = W31_808,
    w_w31_809: W31_809 = W31_809,
    w_w31_810: W31_810 = W31_810,
    w_w31_811: W31_811 = W31_811,
    w_w31_812: W31_812 = W31_812,
    w_w31_813: W31_813 = W31_813,
    w_w33_635: W33_635 = W33_635,
    w_w33_636: W33_636 = W33_636,
    w_w33_637: W33_637 = W33_637,
    w_w33_638: W33_638 = W33_638,
    w_w33_639: W33_639 = W33_639,
    w_w33_640: W33_640 = W33_640,
    w_w33_641: W33_641 = W33_641,
    w_w33_642: W33_642 = W33_642,
    w_w33_643: W33_643 = W33_643,
    w_w31_814: W31_814 = W31_814,
    w_w31_815: W31_815 = W31_815,
    w_w31_816: W31_816 = W31_816,
    w_w31_817: W31_817 = W31_817,
    w_w31_818: W31_818 = W31_818,
    w_w31_819: W31_819 = W31_819,
    w_w31_820: W31_820 = W31_820,
    w_w31_821: W31_821 = W31_821,
    w_w31_822: W31_822 = W31_822,
    w_w31_823: W31_823 = W31_823,
    w_w31_824: W31_824 = W31_824,
    w_w31_825: W31_825 = W31_825,
    w_w31_826: W31_826 = W31_826,
    w_w31_827: W31_827 = W31_827,
    w_w31_828: W31_828 = W31_828,
    w_w31_829: W31_829 = W31_829,
    w_w31_830: W31_830 = W31_830,
    w_w31_831: W31_831 = W31_831,
    w_w31_832: W31_832 = W31_832,
    w_w31_833: W31_833 = W31_833,
    w_w31_834: W31_834 = W31_834,
    w_w31_835: W31_835 = W31_835,
    w_w31_836: W31_836 = W31_836,
    w_w31_837: W31_837 = W31_837,
    w_w31_838: W31_838 = W31_838,
    w_w31_839: W31_839 = W31_839,
    w_w31_840: W31_840 = W31_840,
    w_w31_841: W31_841 = W31_841,
    w_w31_842: W31_842 = W31_842,
    w_w31_843: W31_843 = W31_843,
    w_w31_844: W31_844 = W31_844,
    w_w31_845: W31_845 = W31_845,
    w_w31_846: W31_846 = W31_846,
    w_w31_847: W31_847 = W31_847,
    w_w31_848: W31_848 = W31_848,
    w_w31_849: W31_849 = W31_849,
    w_w33_644: W33_644 = W33_644,
    w_w33_645: W33_645 = W33_645,
    w_w33_646: W33_646 = W33_646,
    w_w33_647: W33_647 = W33_647,
    w_w33_648: W33_648 = W33_648,
    w_w33_649: W33_649 = W33_649,
    w_w33_650: W33_650 = W33_650,
    w_w33_651: W33_651 = W33_651,
    w_w33_652: W33_652 = W33_652,
    w_w34_412: W34_412 = W34_412,
    w_w34_413: W34_413 = W34_413,
    w_w34_414: W34_414 = W34_414,
    w_w36_659: W36_659 = W36_659,
    w_w31_850: W31_850 = W31_850,
    w_w31_851: W31_851 = W31_851,
    w_w31_852: W31_852 = W31_852,
    w_w31_853: W31_853 = W31_853,
    w_w31_854: W31_854 = W31_854,
    w_w31_855: W31_855 = W31_855,
    w_w31_856: W31_856 = W31_856,
    w_w31_857: W31_857 = W31_857,
    w_w31_858: W31_858 = W31_858,
    w_w31_859: W31_859 = W31_859,
    w_w31_860: W31_860 = W31_860,
    w_w31_861: W31_861 = W31_861,
    w_w31_862: W31_862 = W31_862,
    w_w31_863: W31_863 = W31_863,
    w_w31_864: W31_864 = W31_864,
    w_w31_865: W31_865 = W31_865,
    w_w31_866: W31_866 = W31_866,
    w_w31_867: W31_867 = W31_867,
    w_w31_868: W31_868 = W31_868,
    w_w31_869: W31_869 = W31_869,
    w_w31_870: W31_870 = W31_870,
    w_w31_871: W31_871 = W31_871,
    w_w31_872: W31_872 = W31_872,
    w_w32_212: W32_212 = W32_212,
    w_w32_213: W32_213 = W32_213,
    w_w32_214: W32_214 = W32_214,
    w_w32_215: W32_215 = W32_215,
    w_w32_216: W32_216 = W32_216,
    w_w32_217: W32_217 = W32_217,
    w_w32_218: W32_218 = W32_218,
    w_w36_660: W36_660 = W36_660,
    w_w31_873: W31_873 = W31_873,
    w_w31_874: W31_874 = W31_874,
    w_w31_875: W31_875 = W31_875,
    w_w31_876: W31_876 = W31_876,
    w_w31_877: W31_877 = W31_877,
    w_w31_878: W31_878 = W31_878,
    w_w31_879: W31_879 = W31_879,
    w_w31_880: W31_880 = W31_880,
    w_w31_881: W31_881 = W31_881,
    w_w31_882: W31_882 = W31_882,
    w_w31_883: W31_883 = W31_883,
    w_w31_884: W31_884 = W31_884,
    w_w31_885: W31_885 = W31_885,
    w_w31_886: W31_886 = W31_886,
    w_w31_887: W31_887 = W31_887,
    w_w31_888: W31_888 = W31_888,
    w_w31_889: W31_889 = W31_889,
    w_w31_890: W31_890 = W31_890,
    w_w31_891: W31_891 = W31_891,
    w_w31_892: W31_892 = W31_892,
    w_w31_893: W31_893 = W31_893,
    w_w31_894: W31_894 = W31_894,
    w_w31_895: W31_895 = W31_895,
    w_w32_219: W32_219 = W32_219,
    w_w32_220: W32_220 = W32_220,
    w_w32_221: W32_221 = W32_221,
    w_w32_222: W32_222 = W32_222,
    w_w32_223: W32_223 = W32_223,
    w_w32_224: W32_224 = W32_224,
    w_w32_225: W32_225 = W32_225,
    w_w36_661: W36_661 = W36_661,
    w_w36_662: W36_662 = W36_662,
    w_w36_663: W36_663 = W36_663,
    w_w36_664: W36_664 = W36_664,
    w_w36_665: W36_665 = W36_665,
    w_w31_896: W31_896 = W31_896,
    w_w31_897: W31_897 = W31_897,
    w_w31_898: W31_898 = W31_898,
    w_w31_899: W31_899 = W31_899,
    w_w31_900: W31_900 = W31_900,
    w_w31_901: W31_901 = W31_901,
    w_w31_902: W31_902 = W31_902,
    w_w31_903: W31_903 = W31_903,
    w_w31_904: W31_904 = W31_904,
    w_w31_905: W31_905 = W31_905,
    w_w31_906: W31_906 = W31_906,
    w_w31_907: W31_907 = W31_907,
    w_w31_908: W31_908 = W31_908,
    w_w31_909: W31_909 = W31_909,
    w_w31_910: W31_910 = W31_910,
    w_w31_911: W31_911 = W31_911,
    w_w31_912: W31_912 = W31_912,
    w_w31_913: W31_913 = W31_913,
    w_w31_914: W31_914 = W31_914,
    w_w31_915: W31_915 = W31_915,
    w_w31_916: W31_916 = W31_916,
    w_w31_917: W31_917 = W31_917,
    w_w31_918: W31_918 = W31_918,
    w_w32_226: W32_226 = W32_226,
    w_w32_227: W32_227 = W32_227,
    w_w32_228: W32_228 = W32_228,
    w_w32_229: W32_229 = W32_229,
    w_w32_230: W32_230 = W32_230,
    w_w32_231: W32_231 = W32_231,
    w_w32_232: W32_232 = W32_232,
    w_w36_666: W36_666 = W36_666,
    w_w31_919: W31_919 = W31_919,
    w_w31_920: W31_920 = W31_920,
    w_w31_921: W31_921 = W31_921,
    w_w31_922: W31_922 = W31_922,
    w_w31_923: W31_923 = W31_923,
    w_w31_924: W31_924 = W31_924,
    w_w31_925: W31_925 = W31_925,
    w_w31_926: W31_926 = W31_926,
    w_w31_927: W31_927 = W31_927,
    w_w31_928: W31_928 = W31_928,
    w_w31_929: W31_929 = W31_929,
    w_w31_930: W31_930 = W31_930,
    w_w31_931: W31_931 = W31_931,
    w_w31_932: W31_932 = W31_932,
    w_w31_933: W31_933 = W31_933,
    w_w31_934: W31_934 = W31_934,
    w_w31_935: W31_935 = W31_935,
    w_w31_936: W31_936 = W31_936,
    w_w31_937: W31_937 = W31_937,
    w_w31_938: W31_938 = W31_938,
    w_w31_939: W31_939 = W31_939,
    w_w31_940: W31_940 = W31_940,
    w_w31_941: W31_941 = W31_941,
    w_w32_233: W32_233 = W32_233,
    w_w32_234: W32_234 = W32_234,
    w_w32_235: W32_235 = W32_235,
    w_w32_236: W32_236 = W32_236,
    w_w32_237: W32_237 = W32_237,
    w_w32_238: W32_238 = W32_238,
    w_w32_239: W32_239 = W32_239,
    w_w36_667: W36_667 = W36_667,
    w_w36_668: W36_668 = W36_668,
    w_w36_669: W36_669 = W36_669,
    w_w36_670: W36_670 = W36_670,
    w_w36_671: W36_671 = W36_671,
    w_w31_942: W31_942 = W31_942,
    w_w31_943: W31_943 = W31_943,
    w_w31_944: W31_944 = W31_944,
    w_w31_945: W31_945 = W31_945,
    w_w31_946: W31_946 = W31_946,
    w_w31_947: W31_947 = W31_947,
    w_w31_948: W31_948 = W31_948,
    w_w31_949: W31_949 = W31_949,
    w_w31_950: W31_950 = W31_950,
    w_w31_951: W31_951 = W31_951,
    w_w31_952: W31_952 = W31_952,
    w_w31_953: W31_953 = W31_953,
    w_w31_954: W31_954 = W31_954,
    w_w31_955: W31_955 = W31_955,
    w_w31_956: W31_956 = W31_956,
    w_w31_957: W31_957 = W31_957,
    w_w31_958: W31_958 = W31_958,
    w_w31_959: W31_959 = W31_959,
    w_w31_960: W31_960 = W31_960,
    w_w31_961: W31_961 = W31_961,
    w_w31_962: W31_962 = W31_962,
    w_w31_963: W31_963 = W31_963,
    w_w31_964: W31_964 = W31_964,
    w_w32_240: W32_240 = W32_240,
    w_w32_241: W32_241 = W32_241,
    w_w32_242: W32_242 = W32_242,
    w_w32_243: W32_243 = W32_243,
    w_w32_244: W32_244 = W32_244,
    w_w32_245: W32_245 = W32_245,
    w_w32_246: W32_246 = W32_246,
    w_w36_672: W36_672 = W36_672,
    w_w31_965: W31_965 = W31_965,
    w_w31_966: W31_966 = W31_966,
    w_w31_967: W31_967 = W31_967,
    w_w31_968: W31_968 = W31_968,
    w_w31_969: W31_969 = W31_969,
    w_w31_970: W31_970 = W31_970,
    w_w31_971: W31_971 = W31_971,
    w_w31_972: W31_972 = W31_972,
    w_w31_973: W31_973 = W31_973,
    w_w31_974: W31_974 = W31_974,
    w_w31_975: W31_975 = W31_975,
    w_w31_976: W31_976 = W31_976,
    w_w31_977: W31_977 = W31_977,
    w_w31_978: W31_978 = W31_978,
    w_w31_979: W31_979 = W31_979,
    w_w31_980: W31_980 = W31_980,
    w_w31_981: W31_981 = W31_981,
    w_w31_982: W31_982 = W31_982,
    w_w31_983: W31_983 = W31_983,
    w_w31_984: W31_984 = W31_984,
    w_w31_985: W31_985 = W31_985,
    w_w31_986: W31_986 = W31_986,
    w_w31_987: W31_987 = W31_987,
    w_w32_247: W32_247 = W32_247,
    w_w32_248: W32_248 = W32_248,
    w_w32_249: W32_249 = W32_249,
    w_w32_250: W32_250 = W32_250,
    w_w32_251: W32_251 = W32_251,
    w_w32_252: W32_252 = W32_252,
    w_w32_253: W32_253 = W32_253,
    w_w36_673: W36_673 = W36_673,
    w_w36_674: W36_674 = W36_674,
    w_w36_675: W36_675 = W36_675,
    w_w36_676: W36_676 = W36_676,
    w_w36_677: W36_677 = W36_677,
    w_w31_988: W31_988 = W31_988,
    w_w31_989: W31_989 = W31_989,
    w_w31_990: W31_990 = W31_990,
    w_w31_991: W31_991 = W31_991,
    w_w31_992: W31_992 = W31_992,
    w_w31_993: W31_993 = W31_993,
    w_w31_994: W31_994 = W31_994,
    w_w31_995: W31_995 = W31_995,
    w_w31_996: W31_996 = W31_996,
    w_w31_997: W31_997 = W31_997,
    w_w31_998: W31_998 = W31_998,
    w_w31_999: W31_999 = W31_999,
    w_w31_1000: W31_1000 = W31_1000,
    w_w31_1001: W31_1001 = W31_1001,
    w_w31_1002: W31_1002 = W31_1002,
    w_w31_1003: W31_1003 = W31_1003,
    w_w31_1004: W31_1004 = W31_1004,
    w_w31_1005: W31_1005 = W31_1005,
    w_w31_1006: W31_1006 = W31_1006,
    w_w31_1007: W31_1007 = W31_1007,
    w_w31_1008: W31_1008 = W31_1008,
    w_w31_1009: W31_1009 = W31_1009,
    w_w31_1010: W31_1010 = W31_1010,
    w_w32_254: W32_254 = W32_254,
    w_w32_255: W32_255 = W32_255,
    w_w32_256: W32_256 = W32_256,
    w_w32_257: W32_257 = W32_257,
    w_w32_258: W32_258 = W32_258,
    w_w32_259: W32_259 = W32_259,
    w_w32_260: W32_260 = W32_260,
    w_w36_678: W36_678 = W36_678,
    w_w31_1011: W31_1011 = W31_1011,
    w_w31_1012: W31_1012 = W31_1012,
    w_w31_1013: W31_1013 = W31_1013,
    w_w31_1014: W31_1014 = W31_1014,
    w_w31_1015: W31_1015 = W31_1015,
    w_w31_1016: W31_1016 = W31_1016,
    w_w31_1017: W31_1017 = W31_1017,
    w_w31_1018: W31_1018 = W31_1018,
    w_w31_1019: W31_1019 = W31_1019,
    w_w31_1020: W31_1020 = W31_1020,
    w_w31_1021: W31_1021 = W31_1021,
    w_w31_1022: W31_1022 = W31_1022,
    w_w31_1023: W31_1023 = W31_1023,
    w_w31_1024: W31_1024 = W31_1024,
    w_w31_1025: W31_1025 = W31_1025,
    w_w31_1026: W31_1026 = W31_1026,
    w_w31_1027: W31_1027 = W31_1027,
    w_w31_1028: W31_1028 = W31_1028,
    w_w31_1029: W31_1029 = W31_1029,
    w_w31_1030: W31_1030 = W31_1030,
    w_w31_1031: W31_1031 = W31_1031,
    w_w31_1032: W31_1032 = W31_1032,
    w_w31_1033: W31_1033 = W31_1033,
    w_w32_261: W32_261 = W32_261,
    w_w32_262: W32_262 = W32_262,
    w_w32_263: W32_263 = W32_263,
    w_w32_264: W32_264 = W32_264,
    w_w32_265: W32_265 = W32_265,
    w_w32_266: W32_266 = W32_266,
    w_w32_267: W32_267 = W32_267,
    w_w36_679: W36_679 = W36_679,
    w_w36_680: W36_680 = W36_680,
    w_w36_681: W36_681 = W36_681,
    w_w36_682: W36_682 = W36_682,
    w_w36_683: W36_683 = W36_683,
    w_w31_1034: W31_1034 = W31_1034,
    w_w31_1035: W31_1035 = W31_1035,
    w_w31_1036: W31_1036 = W31_1036,
    w_w31_1037: W31_1037 = W31_1037,
    w_w31_1038: W31_1038 = W31_1038,
    w_w31_1039: W31_1039 = W31_1039,
    w_w31_1040: W31_1040 = W31_1040,
    w_w31_1041: W31_1041 = W31_1041,
    w_w31_1042: W31_1042 = W31_1042,
    w_w31_1043: W31_1043 = W31_1043,
    w_w31_1044: W31_1044 = W31_1044,
    w_w31_1045: W31_1045 = W31_1045,
    w_w31_1046: W31_1046 = W31_1046,
    w_w31_1047: W31_1047 = W31_1047,
    w_w31_1048: W31_1048 = W31_1048,
    w_w31_1049: W31_1049 = W31_1049,
    w_w31_1050: W31_1050 = W31_1050,
    w_w31_1051: W31_1051 = W31_1051,
    w_w31_1052: W31_1052 = W31_1052,
    w_w31_1053: W31_1053 = W31_1053,
    w_w31_1054: W31_1054 = W31_1054,
    w_w31_1055: W31_1055 = W31_1055,
    w_w31_1056: W31_1056 = W31_1056,
    w_w32_268: W32_268 = W32_268,
    w_w32_269: W32_269 = W32_269,
    w_w32_270: W32_270 = W32_270,
    w_w32_271: W32_271 = W32_271,
    w_w32_272: W32_272 = W32_272,
    w_w32_273: W32_273 = W32_273,
    w_w32_274: W32_274 = W32_274,
    w_w36_684: W36_684 = W36_684,
    w_w31_1057: W31_1057 = W31_1057,
    w_w31_1058: W31_1058 = W31_1058,
    w_w31_1059: W31_1059 = W31_1059,
    w_w31_1060: W31_1060 = W31_1060,
    w_w31_1061: W31_1061 = W31_1061,
    w_w31_1062: W31_1062 = W31_1062,
    w_w31_1063: W31_1063 = W31_1063,
    w_w31_1064: W31_1064 = W31_1064,
    w_w31_1065: W31_1065 = W31_1065,
    w_w31_1066: W31_1066 = W31_1066,
    w_w31_1067: W31_1067 = W31_1067,
    w_w31_1068: W31_1068 = W31_1068,
    w_w31_1069: W31_1069 = W31_1069,
    w_w31_1070: W31_1070 = W31_1070,
    w_w31_1071: W31_1071 = W31_1071,
    w_w31_1072: W31_1072 = W31_1072,
    w_w31_1073: W31_1073 = W31_1073,
    w_w31_1074: W31_1074 = W31_1074,
    w_w31_1075: W31_1075 = W31_1075,
    w_w31_1076: W31_1076 = W31_1076,
    w_w31_1077: W31_1077 = W31_1077,
    w_w31_1078: W31_1078 = W31_1078,
    w_w31_1079: W31_1079 = W31_1079,
    w_w32_275: W32_275 = W32_275,
    w_w32_276: W32_276 = W32_276,
    w_w32_277: W32_277 = W32_277,
    w_w32_278: W32_278 = W32_278,
    w_w32_279: W32_279 = W32_279,
    w_w32_280: W32_280 = W32_280,
    w_w32_281: W32_281 = W32_281,
    w_w36_685: W36_685 = W36_685,
    w_w36_686: W36_686 = W36_686,
    w_w36_687: W36_687 = W36_687,
    w_w36_688: W36_688 = W36_688,
    w_w36_689: W36_689 = W36_689,
    w_w31_1080: W31_1080 = W31_1080,
    w_w31_1081: W31_1081 = W31_1081,
    w_w31_1082: W31_1082 = W31_1082,
    w_w31_1083: W31_1083 = W31_1083,
    w_w31_1084: W31_1084 = W31_1084,
    w_w31_1085: W31_1085 = W31_1085,
    w_w31_1086: W31_1086 = W31_1086,
    w_w31_1087: W31_1087 = W31_1087,
    w_w31_1088: W31_1088 = W31_1088,
    w_w31_1089: W31_1089 = W31_1089,
    w_w31_1090: W31_1090 = W31_1090,
    w_w31_1091: W31_1091 = W31_1091,
    w_w31_1092: W31_1092 = W31_1092,
    w_w31_1093: W31_1093 = W31_1093,
    w_w31_1094: W31_1094 = W31_1094,
    w_w31_1095: W31_1095 = W31_1095,
    w_w31_1096: W31_1096 = W31_1096,
    w_w31_1097: W31_1097 = W31_1097,
    w_w31_1098: W31_1098 = W31_1098,
    w_w31_1099: W31_1099 = W31_1099,
    w_w31_1100: W31_1100 = W31_1100,
    w_w31_1101: W31_1101 = W31_1101,
    w_w31_1102: W31_1102 = W31_1102,
    w_w32_282: W32_282 = W32_282,
    w_w32_283: W32_283 = W32_283,
    w_w32_284: W32_284 = W32_284,
    w_w32_285: W32_285 = W32_285,
    w_w32_286: W32_286 = W32_286,
    w_w32_287: W32_287 = W32_287,
    w_w32_288: W32_288 = W32_288,
    w_w36_690: W36_690 = W36_690,
    w_w31_1103: W31_1103 = W31_1103,
    w_w31_1104: W31_1104 = W31_1104,
    w_w31_1105: W31_1105 = W31_1105,
    w_w31_1106: W31_1106 = W31_1106,
    w_w31_1107: W31_1107 = W31_1107,
    w_w31_1108: W31_1108 = W31_1108,
    w_w31_1109: W31_1109 = W31_1109,
    w_w31_1110: W31_1110 = W31_1110,
    w_w31_1111: W31_1111 = W31_1111,
    w_w31_1112: W31_1112 = W31_1112,
    w_w31_1113: W31_1113 = W31_1113,
    w_w31_1114: W31_1114 = W31_1114,
    w_w31_1115: W31_1115 = W31_1115,
    w_w31_1116: W31_1116 = W31_1116,
    w_w31_1117: W31_1117 = W31_1117,
    w_w31_1118: W31_1118 = W31_1118,
    w_w31_1119: W31_1119 = W31_1119,
    w_w31_1120: W31_1120 = W31_1120,
    w_w31_1121: W31_1121 = W31_1121,
    w_w31_1122: W31_1122 = W31_1122,
    w_w31_1123: W31_1123 = W31_1123,
    w_w31_1124: W31_1124 = W31_1124,
    w_w31_1125: W31_1125 = W31_1125,
    w_w32_289: W32_289 = W32_289,
    w_w32_290: W32_290 = W32_290,
    w_w32_291: W32_291 = W32_291,
    w_w32_292: W32_292 = W32_292,
    w_w32_293: W32_293 = W32_293,
    w_w32_294: W32_294 = W32_294,
    w_w32_295: W32_295 = W32_295,
    w_w36_691: W36_691 = W36_691,
    w_w36_692: W36_692 = W36_692,
    w_w36_693: W36_693 = W36_693,
    w_w36_694: W36_694 = W36_694,
    w_w36_695: W36_695 = W36_695,
    w_w31_1126: W31_1126 = W31_1126,
    w_w31_1127: W31_1127 = W31_1127,
    w_w31_1128: W31_1128 = W31_1128,
    w_w31_1129: W31_1129 = W31_1129,
    w_w31_1130: W31_1130 = W31_1130,
    w_w31_1131: W31_1131 = W31_1131,
    w_w31_1132: W31_1132 = W31_1132,
    w_w31_1133: W31_1133 = W31_1133,
    w_w31_1134: W31_1134 = W31_1134,
    w_w31_1135: W31_1135 = W31_1135,
    w_w31_1136: W31_1136 = W31_1136,
    w_w31_1137: W31_1137 = W31_1137,
    w_w31_1138: W31_1138 = W31_1138,
    w_w31_1139: W31_1139 = W31_1139,
    w_w31_1140: W31_1140 = W31_1140,
    w_w31_1141: W31_1141 = W31_1141,
    w_w31_1142: W31_1142 = W31_1142,
    w_w31_1143: W31_1143 = W31_1143,
    w_w31_1144: W31_1144 = W31_1144,
    w_w31_1145: W31_1145 = W31_1145,
    w_w31_1146: W31_1146 = W31_1146,
    w_w31_1147: W31_1147 = W31_1147,
    w_w31_1148: W31_1148 = W31_1148,
    w_w32_296: W32_296 = W32_296,
    w_w32_297: W32_297 = W32_297,
    w_w32_298: W32_298 = W32_298,
    w_w32_299: W32_299 = W32_299,
    w_w32_300: W32_300 = W32_300,
    w_w32_301: W32_301 = W32_301,
    w_w32_302: W32_302 = W32_302,
    w_w36_696: W36_696 = W36_696,
    w_w31_1149: W31_1149 = W31_1149,
    w_w31_1150: W31_1150 = W31_1150,
    w_w31_1151: W31_1151 = W31_1151,
    w_w31_1152: W31_1152 = W31_1152,
    w_w31_1153: W31_1153 = W31_1153,
    w_w31_1154: W31_1154 = W31_1154,
    w_w31_1155: W31_1155 = W31_1155,
    w_w31_1156: W31_1156 = W31_1156,
    w_w31_1157: W31_1157 = W31_1157,
    w_w31_1158: W31_1158 = W31_1158,
    w_w31_1159: W31_1159 = W31_1159,
    w_w31_1160: W31_1160 = W31_1160,
    w_w31_1161: W31_1161 = W31_1161,
    w_w31_1162: W31_1162 = W31_1162,
    w_w31_1163: W31_1163 = W31_1163,
    w_w31_1164: W31_1164 = W31_1164,
    w_w31_1165: W31_1165 = W31_1165,
    w_w31_1166: W31_1166 = W31_1166,
    w_w31_1167: W31_1167 = W31_1167,
    w_w31_1168: W31_1168 = W31_1168,
    w_w31_1169: W31_1169 = W31_1169,
    w_w31_1170: W31_1170 = W31_1170,
    w_w31_1171: W31_1171 = W31_1171,
    w_w32_303: W32_303 = W32_303,
    w_w32_304: W32_304 = W32_304,
    w_w32_305: W32_305 = W32_305,
    w_w32_306: W32_306 = W32_306,
    w_w32_307: W32_307 = W32_307,
    w_w32_308: W32_308 = W32_308,
    w_w32_309: W32_309 = W32_309,
    w_w36_697: W36_697 = W36_697,
    w_w36_698: W36_698 = W36_698,
    w_w36_699: W36_699 = W36_699,
    w_w36_700: W36_700 = W36_700,
    w_w36_701: W36_701 = W36_701,
    w_w31_1172: W31_1172 = W31_1172,
    w_w31_1173: W31_1173 = W31_1173,
    w_w31_1174: W31_1174 = W31_1174,
    w_w31_1175: W31_1175 = W31_1175,
    w_w31_1176: W31_1176 = W31_1176,
    w_w31_1177: W31_1177 = W31_1177,
    w_w31_1178: W31_1178 = W31_1178,
    w_w31_1179: W31_1179 = W31_1179,
    w_w31_1180: W31_1180 = W31_1180,
    w_w31_1181: W31_1181 = W31_1181,
    w_w31_1182: W31_1182 = W31_1182,
    w_w31_1183: W31_1183 = W31_1183,
    w_w31_1184: W31_1184 = W31_1184,
    w_w31_1185: W31_1185 = W31_1185,
    w_w31_1186: W31_1186 = W31_1186,
    w_w31_1187: W31_1187 = W31_1187,
    w_w31_1188: W31_1188 = W31_1188,
    w_w31_1189: W31_1189 = W31_1189,
    w_w31_1190: W31_1190 = W31_1190,
    w_w31_1191: W31_1191 = W31_1191,
    w_w31_1192: W31_1192 = W31_1192,
    w_w31_1193: W31_1193 = W31_1193,
    w_w31_1194: W31_1194 = W31_1194,
    w_w32_310: W32_310 = W32_310,
    w_w32_311: W32_311 = W32_311,
    w_w32_312: W32_312 = W32_312,
    w_w32_313: W32_313 = W32_313,
    w_w32_314: W32_314 = W32_314,
    w_w32_315: W32_315 = W32_315,
    w_w32_316: W32_316 = W32_316,
    w_w36_702: W36_702 = W36_702,
    w_w31_1195: W31_1195 = W31_1195,
    w_w31_1196: W31_1196 = W31_1196,
    w_w31_1197: W31_1197 = W31_1197,
    w_w31_1198: W31_1198 = W31_1198,
    w_w31_1199: W31_1199 = W31_1199,
    w_w31_1200: W31_1200 = W31_1200,
    w_w31_1201: W31_1201 = W31_1201,
    w_w31_1202: W31_1202 = W31_1202,
    w_w31_1203: W31_1203 = W31_1203,
    w_w31_1204: W31_1204 = W31_1204,
    w_w31_1205: W31_1205 = W31_1205,
    w_w31_1206: W31_1206 = W31_1206,
    w_w31_1207: W31_1207 = W31_1207,
    w_w31_1208: W31_1208 = W31_1208,
    w_w31_1209: W31_1209 = W31_1209,
    w_w31_1210: W31_1210 = W31_1210,
    w_w31_1211: W31_1211 = W31_1211,
    w_w31_1212: W31_1212 = W31_1212,
    w_w31_1213: W31_1213 = W31_1213,
    w_w31_1214: W31_1214 = W31_1214,
    w_w31_1215: W31_1215 = W31_1215,
    w_w31_1216: W31_1216 = W31_1216,
    w_w31_1217: W31_1217 = W31_1217,
    w_w32_317: W32_317 = W32_317,
    w_w32_318: W32_318 = W32_318,
    w_w32_319: W32_319 = W32_319,
    w_w32_320: W32_320 = W32_320,
    w_w32_321: W32_321 = W32_321,
    w_w32_322: W32_322 = W32_322,
    w_w32_323: W32_323 = W32_323,
    w_w36_703: W36_703 = W36_703,
    w_w36_704: W36_704 = W36_704,
    w_w36_705: W36_705 = W36_705,
    w_w36_706: W36_706 = W36_706,
    w_w36_707: W36_707 = W36_707,
    w_w31_1218: W31_1218 = W31_1218,
    w_w31_1219: W31_1219 = W31_1219,
    w_w31_1220: W31_1220 = W31_1220,
    w_w31_1221: W31_1221 = W31_1221,
    w_w31_1222: W31_1222 = W31_1222,
    w_w31_1223: W31_1223 = W31_1223,
    w_w31_1224: W31_1224 = W31_1224,
    w_w31_1225: W31_1225 = W31_1225,
    w_w31_1226: W31_1226 = W31_1226,
    w_w31_1227: W31_1227 = W31_1227,
    w_w31_1228: W31_1228 = W31_1228,
    w_w31_1229: W31_1229 = W31_1229,
    w_w31_1230: W31_1230 = W31_1230,
    w_w31_1231: W31_1231 = W31_1231,
    w_w31_1232: W31_1232 = W31_1232,
    w_w31_1233: W31_1233 = W31_1233,
    w_w31_1234: W31_1234 = W31_1234,
    w_w31_1235: W31_1235 = W31_1235,
    w_w31_1236: W31_1236 = W31_1236,
    w_w31_1237: W31_1237 = W31_1237,
    w_w31_1238: W31_1238 = W31_1238,
    w_w31_1239: W31_1239 = W31_1239,
    w_w31_1240: W31_1240 = W31_1240,
    w_w32_324: W32_324 = W32_324,
    w_w32_325: W32_325 = W32_325,
    w_w32_326: W32_326 = W32_326,
    w_w32_327: W32_327 = W32_327,
    w_w32_328: W32_328 = W32_328,
    w_w32_329: W32_329 = W32_329,
    w_w32_330: W32_330 = W32_330,
    w_w36_708: W36_708 = W36_708,
    w_w31_1241: W31_1241 = W31_1241,
    w_w31_1242: W31_1242 = W31_1242,
    w_w31_1243: W31_1243 = W31_1243,
    w_w31_1244: W31_1244 = W31_1244,
    w_w31_1245: W31_1245 = W31_1245,
    w_w31_1246: W31_1246 = W31_1246,
    w_w31_1247: W31_1247 = W31_1247,
    w_w31_1248: W31_1248 = W31_1248,
    w_w31_1249: W31_1249 = W31_1249,
    w_w31_1250: W31_1250 = W31_1250,
    w_w31_1251: W31_1251 = W31_1251,
    w_w31_1252: W31_1252 = W31_1252,
    w_w31_1253: W31_1253 = W31_1253,
    w_w31_1254: W31_1254 = W31_1254,
    w_w31_1255: W31_1255 = W31_1255,
    w_w31_1256: W31_1256 = W31_1256,
    w_w31_1257: W31_1257 = W31_1257,
    w_w31_1258: W31_1258 = W31_1258,
    w_w31_1259: W31_1259 = W31_1259,
    w_w31_1260: W31_1260 = W31_1260,
    w_w31_1261: W31_1261 = W31_1261,
    w_w31_1262: W31_1262 = W31_1262,
    w_w31_1263: W31_1263 = W31_1263,
    w_w32_331: W32_331 = W32_331,
    w_w32_332: W32_332 = W32_332,
    w_w32_333: W32_333 = W32_333,
    w_w32_334: W32_334 = W32_334,
    w_w32_335: W32_335 = W32_335,
    w_w32_336: W32_336 = W32_336,
    w_w32_337: W32_337 = W32_337,
    w_w36_709: W36_709 = W36_709,
    w_w36_710: W36_710 = W36_710,
    w_w36_711: W36_711 = W36_711,
    w_w36_712: W36_712 = W36_712,
    w_w36_713: W36_713 = W36_713,
    w_w31_1264: W31_1264 = W31_1264,
    w_w31_1265: W31_1265 = W31_1265,
    w_w31_1266: W31_1266 = W31_1266,
    w_w31_1267: W31_1267 = W31_1267,
    w_w31_1268: W31_1268 = W31_1268,
    w_w31_1269: W31_1269 = W31_1269,
    w_w31_1270: W31_1270 = W31_1270,
    w_w31_1271: W31_1271 = W31_1271,
    w_w31_1272: W31_1272 = W31_1272,
    w_w31_1273: W31_1273 = W31_1273,
    w_w31_1274: W31_1274 = W31_1274,
    w_w31_1275: W31_1275 = W31_1275,
    w_w31_1276: W31_1276 = W31_1276,
    w_w31_1277: W31_1277 = W31_1277,
    w_w31_1278: W31_1278 = W31_1278,
    w_w31_1279: W31_1279 = W31_1279,
    w_w31_1280: W31_1280 = W31_1280,
    w_w31_1281: W31_1281 = W31_1281,
    w_w31_1282: W31_1282 = W31_1282,
    w_w31_1283: W31_1283 = W31_1283,
    w_w31_1284: W31_1284 = W31_1284,
    w_w31_1285: W31_1285 = W31_1285,
    w_w31_1286: W31_1286 = W31_1286,
    w_w32_338: W32_338 = W32_338,
    w_w32_339: W32_339 = W32_339,
    w_w32_340: W32_340 = W32_340,
    w_w32_341: W32_341 = W32_341,
    w_w32_342: W32_342 = W32_342,
    w_w32_343: W32_343 = W32_343,
    w_w32_344: W32_344 = W32_344,
    w_w36_714: W36_714 = W36_714,
    w_w31_1287: W31_1287 = W31_1287,
    w_w31_1288: W31_1288 = W31_1288,
    w_w31_1289: W31_1289 = W31_1289,
    w_w31_1290: W31_1290 = W31_1290,
    w_w31_1291: W31_1291 = W31_1291,
    w_w31_1292: W31_1292 = W31_1292,
    w_w31_1293: W31_1293 = W31_1293,
    w_w31_1294: W31_1294 = W31_1294,
    w_w31_1295: W31_1295 = W31_1295,
    w_w31_1296: W31_1296 = W31_1296,
    w_w31_1297: W31_1297 = W31_1297,
    w_w31_1298: W31_1298 = W31_1298,
    w_w31_1299: W31_1299 = W31_1299,
    w_w31_1300: W31_1300 = W31_1300,
    w_w31_1301: W31_1301 = W31_1301,
    w_w31_1302: W31_1302 = W31_1302,
    w_w31_1303: W31_1303 = W31_1303,
    w_w31_1304: W31_1304 = W31_1304,
    w_w31_1305: W31_1305 = W31_1305,
    w_w31_1306: W31_1306 = W31_1306,
    w_w31_1307: W31_1307 = W31_1307,
    w_w31_1308: W31_1308 = W31_1308,
    w_w31_1309: W31_1309 = W31_1309,
    w_w32_345: W32_345 = W32_345,
    w_w32_346: W32_346 = W32_346,
    w_w32_347: W32_347 = W32_347,
    w_w32_348: W32_348 = W32_348,
    w_w32_349: W32_349 = W32_349,
    w_w32_350: W32_350 = W32_350,
    w_w32_351: W32_351 = W32_351,
    w_w36_715: W36_715 = W36_715,
    w_w36_716: W36_716 = W36_716,
    w_w36_717: W36_717 = W36_717,
    w_w36_718: W36_718 = W36_718,
    w_w36_719: W36_719 = W36_719,
    w_w31_1310: W31_1310 = W31_1310,
    w_w31_1311: W31_1311 = W31_1311,
    w_w31_1312: W31_1312 = W31_1312,
    w_w31_1313: W31_1313 = W31_1313,
    w_w31_1314: W31_1314 = W31_1314,
    w_w31_1315: W31_1315 = W31_1315,
    w_w31_1316: W31_1316 = W31_1316,
    w_w31_1317: W31_1317 = W31_1317,
    w_w31_1318: W31_1318 = W31_1318,
    w_w31_1319: W31_1319 = W31_1319,
    w_w31_1320: W31_1320 = W31_1320,
    w_w31_1321: W31_1321 = W31_1321,
    w_w31_1322: W31_1322 = W31_1322,
    w_w31_1323: W31_1323 = W31_1323,
    w_w31_1324: W31_1324 = W31_1324,
    w_w31_1325: W31_1325 = W31_1325,
    w_w31_1326: W31_1326 = W31_1326,
    w_w31_1327: W31_1327 = W31_1327,
    w_w31_1328: W31_1328 = W31_1328,
    w_w31_1329: W31_1329 = W31_1329,
    w_w31_1330: W31_1330 = W31_1330,
    w_w31_1331: W31_1331 = W31_1331,
    w_w31_1332: W31_1332 = W31_1332,
    w_w32_352: W32_352 = W32_352,
    w_w32_353: W32_353 = W32_353,
    w_w32_354: W32_354 = W32_354,
    w_w32_355: W32_355 = W32_355,
    w_w32_356: W32_356 = W32_356,
    w_w32_357: W32_357 = W32_357,
    w_w32_358: W32_358 = W32_358,
    w_w36_720: W36_720 = W36_720,
    w_w31_1333: W31_1333 = W31_1333,
    w_w31_1334: W31_1334 = W31_1334,
    w_w31_1335: W31_1335 = W31_1335,
    w_w31_1336: W31_1336 = W31_1336,
    w_w31_1337: W31_1337 = W31_1337,
    w_w31_1338: W31_1338 = W31_1338,
    w_w31_1339: W31_1339 = W31_1339,
    w_w31_1340: W31_1340 = W31_1340,
    w_w31_1341: W31_1341 = W31_1341,
    w_w31_1342: W31_1342 = W31_1342,
    w_w31_1343: W31_1343 = W31_1343,
    w_w31_1344: W31_1344 = W31_1344,
    w_w31_1345: W31_1345 = W31_1345,
    w_w31_1346: W31_1346 = W31_1346,
    w_w31_1347: W31_1347 = W31_1347,
    w_w31_1348: W31_1348 = W31_1348,
    w_w31_1349: W31_1349 = W31_1349,
    w_w31_1350: W31_1350 = W31_1350,
    w_w31_1351: W31_1351 = W31_1351,
    w_w31_1352: W31_1352 = W31_1352,
    w_w31_1353: W31_1353 = W31_1353,
    w_w31_1354: W31_1354 = W31_1354,
    w_w31_1355: W31_1355 = W31_1355,
    w_w32_359: W32_359 = W32_359,
    w_w32_360: W32_360 = W32_360,
    w_w32_361: W32_361 = W32_361,
    w_w32_362: W32_362 = W32_362,
    w_w32_363: W32_363 = W32_363,
    w_w32_364: W32_364 = W32_364,
    w_w32_365: W32_365 = W32_365,
    w_w36_721: W36_721 = W36_721,
    w_w36_722: W36_722 = W36_722,
    w_w36_723: W36_723 = W36_723,
    w_w36_724: W36_724 = W36_724,
    w_w36_725: W36_725 = W36_725,
    w_w31_1356: W31_1356 = W31_1356,
    w_w31_1357: W31_1357 = W31_1357,
    w_w31_1358: W31_1358 = W31_1358,
    w_w31_1359: W31_1359 = W31_1359,
    w_w31_1360: W31_1360 = W31_1360,
    w_w31_1361: W31_1361 = W31_1361,
    w_w31_1362: W31_1362 = W31_1362,
    w_w31_1363: W31_1363 = W31_1363,
    w_w31_1364: W31_1364 = W31_1364,
    w_w31_1365: W31_1365 = W31_1365,
    w_w31_1366: W31_1366 = W31_1366,
    w_w31_1367: W31_1367 = W31_1367,
    w_w31_1368: W31_1368 = W31_1368,
    w_w31_1369: W31_1369 = W31_1369,
    w_w31_1370: W31_1370 = W31_1370,
    w_w31_1371: W31_1371 = W31_1371,
    w_w31_1372: W31_1372 = W31_1372,
    w_w31_1373: W31_1373 = W31_1373,
    w_w31_1374: W31_1374 = W31_1374,
    w_w31_1375: W31_1375 = W31_1375,
    w_w31_1376: W31_1376 = W31_1376,
    w_w31_1377: W31_1377 = W31_1377,
    w_w31_1378: W31_1378 = W31_1378,
    w_w32_366: W32_366 = W32_366,
    w_w32_367: W32_367 = W32_367,
    w_w32_368: W32_368 = W32_368,
    w_w32_369: W32_369 = W32_369,
    w_w32_370: W32_370 = W32_370,
    w_w32_371: W32_371 = W32_371,
    w_w32_372: W32_372 = W32_372,
    w_w36_726: W36_726 = W36_726,
    w_w31_1379: W31_1379 = W31_1379,
    w_w31_1380: W31_1380 = W31_1380,
    w_w31_1381: W31_1381 = W31_1381,
    w_w31_1382: W31_1382 = W31_1382,
    w_w31_1383: W31_1383 = W31_1383,
    w_w31_1384: W31_1384 = W31_1384,
    w_w31_1385: W31_1385 = W31_1385,
    w_w31_1386: W31_1386 = W31_1386,
    w_w31_1387: W31_1387 = W31_1387,
    w_w31_1388: W31_1388 = W31_1388,
    w_w31_1389: W31_1389 = W31_1389,
    w_w31_1390: W31_1390 = W31_1390,
    w_w31_1391: W31_1391 = W31_1391,
    w_w31_1392: W31_1392 = W31_1392,
    w_w31_1393: W31_1393 = W31_1393,
    w_w31_1394: W31_1394 = W31_1394,
    w_w31_1395: W31_1395 = W31_1395,
    w_w31_1396: W31_1396 = W31_1396,
    w_w31_1397: W31_1397 = W31_1397,
    w_w31_1398: W31_1398 = W31_1398,
    w_w31_1399: W31_1399 = W31_1399,
    w_w31_1400: W31_1400 = W31_1400,
    w_w31_1401: W31_1401 = W31_1401,
    w_w32_373: W32_373 = W32_373,
    w_w32_374: W32_374 = W32_374,
    w_w32_375: W32_375 = W32_375,
    w_w32_376: W32_376 = W32_376,
    w_w32_377: W32_377 = W32_377,
    w_w32_378: W32_378 = W32_378,
    w_w32_379: W32_379 = W32_379,
    w_w36_727: W36_727 = W36_727,
    w_w36_728: W36_728 = W36_728,
    w_w36_729: W36_729 = W36_729,
    w_w36_730: W36_730 = W36_730,
    w_w36_731: W36_731 = W36_731,
    w_w31_1402: W31_1402 = W31_1402,
    w_w31_1403: W31_1403 = W31_1403,
    w_w31_1404: W31_1404 = W31_1404,
    w_w31_1405: W31_1405 = W31_1405,
    w_w31_1406: W31_1406 = W31_1406,
    w_w31_1407: W31_1407 = W31_1407,
    w_w31_1408: W31_1408 = W31_1408,
    w_w31_1409: W31_1409 = W31_1409,
    w_w31_1410: W31_1410 = W31_1410,
    w_w31_1411: W31_1411 = W31_1411,
    w_w31_1412: W31_1412 = W31_1412,
    w_w31_1413: W31_1413 = W31_1413,
    w_w31_1414: W31_1414 = W31_1414,
    w_w31_1415: W31_1415 = W31_1415,
    w_w31_1416: W31_1416 = W31_1416,
    w_w31_1417: W31_1417 = W31_1417,
    w_w31_1418: W31_1418 = W31_1418,
    w_w31_1419: W31_1419 = W31_1419,
    w_w31_1420: W31_1420 = W31_1420,
    w_w31_1421: W31_1421 = W31_1421,
    w_w31_1422: W31_1422 = W31_1422,
    w_w31_1423: W31_1423 = W31_1423,
    w_w31_1424: W31_1424 = W31_1424,
    w_w32_380: W32_380 = W32_380,
    w_w32_381: W32_381 = W32_381,
    w_w32_382: W32_382 = W32_382,
    w_w32_383: W32_383 = W32_383,
    w_w32_384: W32_384 = W32_384,
    w_w32_385: W32_385 = W32_385,
    w_w32_386: W32_386 = W32_386,
    w_w36_732: W36_732 = W36_732,
    w_w31_1425: W31_1425 = W31_1425,
    w_w31_1426: W31_1426 = W31_1426,
    w_w31_1427: W31_1427 = W31_1427,
    w_w31_1428: W31_1428 = W31_1428,
    w_w31_1429: W31_1429 = W31_1429,
    w_w31_1430: W31_1430 = W31_1430,
    w_w31_1431: W31_1431 = W31_1431,
    w_w31_1432: W31_1432 = W31_1432,
    w_w31_1433: W31_1433 = W31_1433,
    w_w31_1434: W31_1434 = W31_1434,
    w_w31_1435: W31_1435 = W31_1435,
    w_w31_1436: W31_1436 = W31_1436,
    w_w31_1437: W31_1437 = W31_1437,
    w_w31_1438: W31_1438 = W31_1438,
    w_w31_1439: W31_1439 = W31_1439,
    w_w31_1440: W31_1440 = W31_1440,
    w_w31_1441: W31_1441 = W31_1441,
    w_w31_1442: W31_1442 = W31_1442,
    w_w31_1443: W31_1443 = W31_1443,
    w_w31_1444: W31_1444 = W31_1444,
    w_w31_1445: W31_1445 = W31_1445,
    w_w31_1446: W31_1446 = W31_1446,
    w_w31_1447: W31_1447 = W31_1447,
    w_w32_387: W32_387 = W32_387,
    w_w32_388: W32_388 = W32_388,
    w_w32_389: W32_389 = W32_389,
    w_w32_390: W32_390 = W32_390,
    w_w32_391: W32_391 = W32_391,
    w_w32_392: W32_392 = W32_392,
    w_w32_393: W32_393 = W32_393,
    w_w36_733: W36_733 = W36_733,
    w_w36_734: W36_734 = W36_734,
    w_w36_735: W36_735 = W36_735,
    w_w36_736: W36_736 = W36_736,
    w_w36_737: W36_737 = W36_737,
    w_w31_1448: W31_1448 = W31_1448,
    w_w31_1449: W31_1449 = W31_1449,
    w_w31_1450: W31_1450 = W31_1450,
    w_w31_1451: W31_1451 = W31_1451,
    w_w31_1452: W31_1452 = W31_1452,
    w_w31_1453: W31_1453 = W31_1453,
    w_w31_1454: W31_1454 = W31_1454,
    w_w31_1455: W31_1455 = W31_1455,
    w_w31_1456: W31_1456 = W31_1456,
    w_w31_1457: W31_1457 = W31_1457,
    w_w31_1458: W31_1458 = W31_1458,
    w_w31_1459: W31_1459 = W31_1459,
    w_w31_1460: W31_1460 = W31_1460,
    w_w31_1461: W31_1461 = W31_1461,
    w_w31_1462: W31_1462 = W31_1462,
    w_w31_1463: W31_1463 = W31_1463,
    w_w31_1464: W31_1464 = W31_1464,
    w_w31_1465: W31_1465 = W31_1465,
    w_w31_1466: W31_1466 = W31_1466,
    w_w31_1467: W31_1467 = W31_1467,
    w_w31_1468: W31_1468 = W31_1468,
    w_w31_1469: W31_1469 = W31_1469,
    w_w31_1470: W31_1470 = W31_1470,
    w_w32_394: W32_394 = W32_394,
    w_w32_395: W32_395 = W32_395,
    w_w32_396: W32_396 = W32_396,
    w_w32_397: W32_397 = W32_397,
    w_w32_398: W32_398 = W32_398,
    w_w32_399: W32_399 = W32_399,
    w_w32_400: W32_400 = W32_400,
    w_w36_738: W36_738 = W36_738,
    w_w31_1471: W31_1471 = W31_1471,
    w_w31_1472: W31_1472 = W31_1472,
    w_w31_1473: W31_1473 = W31_1473,
    w_w31_1474: W31_1474 = W31_1474,
    w_w31_1475: W31_1475 = W31_1475,
    w_w31_1476: W31_1476 = W31_1476,
    w_w31_1477: W31_1477 = W31_1477,
    w_w31_1478: W31_1478 = W31_1478,
    w_w31_1479: W31_1479 = W31_1479,
    w_w31_1480: W31_1480 = W31_1480,
    w_w31_1481: W31_1481 = W31_1481,
    w_w31_1482: W31_1482 = W31_1482,
    w_w31_1483: W31_1483 = W31_1483,
    w_w31_1484: W31_1484 = W31_1484,
    w_w31_1485: W31_1485 = W31_1485,
    w_w31_1486: W31_1486 = W31_1486,
    w_w31_1487: W31_1487 = W31_1487,
    w_w31_1488: W31_1488 = W31_1488,
    w_w31_1489: W31_1489 = W31_1489,
    w_w31_1490: W31_1490 = W31_1490,
    w_w31_1491: W31_1491 = W31_1491,
    w_w31_1492: W31_1492 = W31_1492,
    w_w31_1493: W31_1493 = W31_1493,
    w_w32_401: W32_401 = W32_401,
    w_w32_402: W32_402 = W32_402,
    w_w32_403: W32_403 = W32_403,
    w_w32_404: W32_404 = W32_404,
    w_w32_405: W32_405 = W32_405,
    w_w32_406: W32_406 = W32_406,
    w_w32_407: W32_407 = W32_407,
    w_w36_739: W36_739 = W36_739,
    w_w36_740: W36_740 = W36_740,
    w_w36_741: W36_741 = W36_741,
    w_w36_742: W36_742 = W36_742,
    w_w36_743: W36_743 = W36_743,
    w_w31_1494: W31_1494 = W31_1494,
    w_w31_1495: W31_1495 = W31_1495,
    w_w31_1496: W31_1496 = W31_1496,
    w_w31_1497: W31_1497 = W31_1497,
    w_w31_1498: W31_1498 = W31_1498,
    w_w31_1499: W31_1499 = W31_1499,
    w_w31_1500: W31_1500 = W31_1500,
    w_w31_1501: W31_1501 = W31_1501,
    w_w31_1502: W31_1502 = W31_1502,
    w_w31_1503: W31_1503 = W31_1503,
    w_w31_1504: W31_1504 = W31_1504,
    w_w31_1505: W31_1505 = W31_1505,
    w_w31_1506: W31_1506 = W31_1506,
    w_w31_1507: W31_1507 = W31_1507,
    w_w31_1508: W31_1508 = W31_1508,
    w_w31_1509: W31_1509 = W31_1509,
    w_w31_1510: W31_1510 = W31_1510,
    w_w31_1511: W31_1511 = W31_1511,
    w_w31_1512: W31_1512 = W31_1512,
    w_w31_1513: W31_1513 = W31_1513,
    w_w31_1514: W31_1514 = W31_1514,
    w_w31_1515: W31_1515 = W31_1515,
    w_w31_1516: W31_1516 = W31_1516,
    w_w32_408: W32_408 = W32_408,
    w_w32_409: W32_409 = W32_409,
    w_w32_410: W32_410 = W32_410,
    w_w32_411: W32_411 = W32_411,
    w_w32_412: W32_412 = W32_412,
    w_w32_413: W32_413 = W32_413,
    w_w32_414: W32_414 = W32_414,
    w_w36_744: W36_744 = W36_744,
    w_w31_1517: W31_1517 = W31_1517,
    w_w31_1518: W31_1518 = W31_1518,
    w_w31_1519: W31_1519 = W31_1519,
    w_w31_1520: W31_1520 = W31_1520,
    w_w31_1521: W31_1521 = W31_1521,
    w_w31_1522: W31_1522 = W31_1522,
    w_w31_1523: W31_1523 = W31_1523,
    w_w31_1524: W31_1524 = W31_1524,
    w_w31_1525: W31_1525 = W31_1525,
    w_w31_1526: W31_1526 = W31_1526,
    w_w31_1527: W31_1527 = W31_1527,
    w_w31_1528: W31_1528 = W31_1528,
    w_w31_1529: W31_1529 = W31_1529,
    w_w31_1530: W31_1530 = W31_1530,
    w_w31_1531: W31_1531 = W31_1531,
    w_w31_1532: W31_1532 = W31_1532,
    w_w31_1533: W31_1533 = W31_1533,
    w_w31_1534: W31_1534 = W31_1534,
    w_w31_1535: W31_1535 = W31_1535,
    w_w31_1536: W31_1536 = W31_1536,
    w_w31_1537: W31_1537 = W31_1537,
    w_w31_1538: W31_1538 = W31_1538,
    w_w31_1539: W31_1539 = W31_1539,
    w_w32_415: W32_415 = W32_415,
    w_w32_416: W32_416 = W32_416,
    w_w32_417: W32_417 = W32_417,
    w_w32_418: W32_418 = W32_418,
    w_w32_419: W32_419 = W32_419,
    w_w32_420: W32_420 = W32_420,
    w_w32_421: W32_421 = W32_421,
    w_w36_745: W36_745 = W36_745,
    w_w36_746: W36_746 = W36_746,
    w_w36_747: W36_747 = W36_747,
    w_w36_748: W36_748 = W36_748,
    w_w36_749: W36_749 = W36_749,
    w_w31_1540: W31_1540 = W31_1540,
    w_w31_1541: W31_1541 = W31_1541,
    w_w31_1542: W31_1542 = W31_1542,
    w_w31_1543: W31_1543 = W31_1543,
    w_w31_1544: W31_1544 = W31_1544,
    w_w31_1545: W31_1545 = W31_1545,
    w_w31_1546: W31_1546 = W31_1546,
    w_w31_1547: W31_1547 = W31_1547,
    w_w31_1548: W31_1548 = W31_1548,
    w_w31_1549: W31_1549 = W31_1549,
    w_w31_1550: W31_1550 = W31_1550,
    w_w31_1551: W31_1551 = W31_1551,
    w_w31_1552: W31_1552 = W31_1552,
    w_w31_1553: W31_1553 = W31_1553,
    w_w31_1554: W31_1554 = W31_1554,
    w_w31_1555: W31_1555 = W31_1555,
    w_w31_1556: W31_1556 = W31_1556,
    w_w31_1557: W31_1557 = W31_1557,
    w_w31_1558: W31_1558 = W31_1558,
    w_w31_1559: W31_1559 = W31_1559,
    w_w31_1560: W31_1560 = W31_1560,
    w_w31_1561: W31_1561 = W31_1561,
    w_w31_1562: W31_1562 = W31_1562,
    w_w32_422: W32_422 = W32_422,
    w_w32_423: W32_423 = W32_423,
    w_w32_424: W32_424 = W32_424,
    w_w32_425: W32_425 = W32_425,
    w_w32_426: W32_426 = W32_426,
    w_w32_427: W32_427 = W32_427,
    w_w32_428: W32_428 = W32_428,
    w_w36_750: W36_750 = W36_750,
    w_w31_1563: W31_1563 = W31_1563,
    w_w31_1564: W31_1564 = W31_1564,
    w_w31_1565: W31_1565 = W31_1565,
    w_w31_1566: W31_1566 = W31_1566,
    w_w31_1567: W31_1567 = W31_1567,
    w_w31_1568: W31_1568 = W31_1568,
    w_w31_1569: W31_1569 = W31_1569,
    w_w31_1570: W31_1570 = W31_1570,
    w_w31_1571: W31_1571 = W31_1571,
    w_w31_1572: W31_1572 = W31_1572,
    w_w31_1573: W31_1573 = W31_1573,
    w_w31_1574: W31_1574 = W31_1574,
    w_w31_1575: W31_1575 = W31_1575,
    w_w31_1576: W31_1576 = W31_1576,
    w_w31_1577: W31_1577 = W31_1577,
    w_w31_1578: W31_1578 = W31_1578,
    w_w31_1579: W31_1579 = W31_1579,
    w_w31_1580: W31_1580 = W31_1580,
    w_w31_1581: W31_1581 = W31_1581,
    w_w31_1582: W31_1582 = W31_1582,
    w_w31_1583: W31_1583 = W31_1583,
    w_w31_1584: W31_1584 = W31_1584,
    w_w31_1585: W31_1585 = W31_1585,
    w_w32_429: W32_429 = W32_429,
    w_w32_430: W32_430 = W32_430,
    w_w32_431: W32_431 = W32_431,
    w_w32_432: W32_432 = W32_432,
    w_w32_433: W32_433 = W32_433,
    w_w32_434: W32_434 = W32_434,
    w_w32_435: W32_435 = W32_435,
    w_w36_751: W36_751 = W36_751,
    w_w36_752: W36_752 = W36_752,
    w_w36_753: W36_753 = W36_753,
    w_w36_754: W36_754 = W36_754,
    w_w36_755: W36_755 = W36_755,
    w_w31_1586: W31_1586 = W31_1586,
    w_w31_1587: W31_1587 = W31_1587,
    w_w31_1588: W31_1588 = W31_1588,
    w_w31_1589: W31_1589 = W31_1589,
    w_w31_1590: W31_1590 = W31_1590,
    w_w31_1591: W31_1591 = W31_1591,
    w_w31_1592: W31_1592 = W31_1592,
    w_w31_1593: W31_1593 = W31_1593,
    w_w31_1594: W31_1594 = W31_1594,
    w_w31_1595: W31_1595 = W31_1595,
    w_w31_1596: W31_1596 = W31_1596,
    w_w31_1597: W31_1597 = W31_1597,
    w_w31_1598: W31_1598 = W31_1598,
    w_w31_1599: W31_1599 = W31_1599,
    w_w31_1600: W31_1600 = W31_1600,
    w_w31_1601: W31_1601 = W31_1601,
    w_w31_1602: W31_1602 = W31_1602,
    w_w31_1603: W31_1603 = W31_1603,
    w_w31_1604: W31_1604 = W31_1604,
    w_w31_1605: W31_1605 = W31_1605,
    w_w31_1606: W31_1606 = W31_1606,
    w_w31_1607: W31_1607 = W31_1607,
    w_w31_1608: W31_1608 = W31_1608,
    w_w32_436: W32_436 = W32_436,
    w_w32_437: W32_437 = W32_437,
    w_w32_438: W32_438 = W32_438,
    w_w32_439: W32_439 = W32_439,
    w_w32_440: W32_440 = W32_440,
    w_w32_441: W32_441 = W32_441,
    w_w32_442: W32_442 = W32_442,
    w_w36_756: W36_756 = W36_756,
    w_w31_1609: W31_1609 = W31_1609,
    w_w31_1610: W31_1610 = W31_1610,
    w_w31_1611: W31_1611 = W31_1611,
    w_w31_1612: W31_1612 = W31_1612,
    w_w31_1613: W31_1613 = W31_1613,
    w_w31_1614: W31_1614 = W31_1614,
    w_w31_1615: W31_1615 = W31_1615,
    w_w31_1616: W31_1616 = W31_1616,
    w_w31_1617: W31_1617 = W31_1617,
    w_w31_1618: W31_1618 = W31_1618,
    w_w31_1619: W31_1619 = W31_1619,
    w_w31_1620: W31_1620 = W31_1620,
    w_w31_1621: W31_1621 = W31_1621,
    w_w31_1622: W31_1622 = W31_1622,
    w_w31_1623: W31_1623 = W31_1623,
    w_w31_1624: W31_1624 = W31_1624,
    w_w31_1625: W31_1625 = W31_1625,
    w_w31_1626: W31_1626 = W31_1626,
    w_w31_1627: W31_1627 = W31_1627,
    w_w31_1628: W31_1628 = W31_1628,
    w_w31_1629: W31_1629 = W31_1629,
    w_w31_1630: W31_1630 = W31_1630,
    w_w31_1631: W31_1631 = W31_1631,
    w_w32_443: W32_443 = W32_443,
    w_w32_444: W32_444 = W32_444,
    w_w32_445: W32_445 = W32_445,
    w_w32_446: W32_446 = W32_446,
    w_w32_447: W32_447 = W32_447,
    w_w32_448: W32_448 = W32_448,
    w_w32_449: W32_449 = W32_449,
    w_w36_757: W36_757 = W36_757,
    w_w36_758: W36_758 = W36_758,
    w_w36_759: W36_759 = W36_759,
    w_w36_760: W36_760 = W36_760,
    w_w31_1632: W31_1632 = W31_1632,
    w_w31_1633: W31_1633 = W31_1633,
    w_w31_1634: W31_1634 = W31_1634,
    w_w31_1635: W31_1635 = W31_1635,
    w_w31_1636: W31_1636 = W31_1636,
    w_w31_1637: W31_1637 = W31_1637,
    w_w31_1638: W31_1638 = W31_1638,
    w_w31_1639: W31_1639 = W31_1639,
    w_w31_1640: W31_1640 = W31_1640,
    w_w31_1641: W31_1641 = W31_1641,
    w_w31_1642: W31_1642 = W31_1642,
    w_w31_1643: W31_1643 = W31_1643,
    w_w31_1644: W31_1644 = W31_1644,
    w_w31_1645: W31_1645 = W31_1645,
    w_w31_1646: W31_1646 = W31_1646,
    w_w31_1647: W31_1647 = W31_1647,
    w_w31_1648: W31_1648 = W31_1648,
    w_w31_1649: W31_1649 = W31_1649,
    w_w31_1650: W31_1650 = W31_1650,
    w_w31_1651: W31_1651 = W31_1651,
    w_w31_1652: W31_1652 = W31_1652,
    w_w31_1653: W31_1653 = W31_1653,
    w_w31_1654: W31_1654 = W31_1654,
    w_w31_1655: W31_1655 = W31_1655,
    w_w31_1656: W31_1656 = W31_1656,
    w_w31_1657: W31_1657 = W31_1657,
    w_w31_1658: W31_1658 = W31_1658,
    w_w31_1659: W31_1659 = W31_1659,
    w_w31_1660: W31_1660 = W31_1660,
    w_w31_1661: W31_1661 = W31_1661,
    w_w31_1662: W31_1662 = W31_1662,
    w_w31_1663: W31_1663 = W31_1663,
    w_w48_127: W48_127 = W48_127,
    w_w48_128: W48_128 = W48_128,
    w_w48_129: W48_129 = W48_129,
    w_w48_130: W48_130 = W48_130,
    w_w48_131: W48_131 = W48_131,
    w_w48_132: W48_132 = W48_132,
    w_w48_133: W48_133 = W48_133,
    w_w48_134: W48_134 = W48_134,
    w_w48_135: W48_135 = W48_135,
    w_w48_136: W48_136 = W48_136,
    w_w48_137: W48_137 = W48_137,
    w_w48_138: W48_138 = W48_138,
    w_w48_139: W48_139 = W48_139,
    w_w48_140: W48_140 = W48_140,
    w_w48_141: W48_141 = W48_141,
    w_w48_142: W48_142 = W48_142,
    w_w48_143: W48_143 = W48_143,
    w_w48_144: W48_144 = W48_144,
    w_w48_145: W48_145 = W48_145,
    w_w48_146: W48_146 = W48_146,
    w_w48_147: W48_147 = W48_147,
    w_w48_148: W48_148 = W48_148,
    w_w48_149: W48_149 = W48_149,
    w_w48_150: W48_150 = W48_150,
    w_w48_151: W48_151 = W48_151,
    w_w48_152: W48_152 = W48_152,
    w_w48_153: W48_153 = W48_153,
    w_w48_154: W48_154 = W48_154,
    w_w48_155: W48_155 = W48_155,
    w_w48_156: W48_156 = W48_156,
    w_w48_157: W48_157 = W48_157,
    w_w48_158: W48_158 = W48_158,
    w_w48_159: W48_159 = W48_159,
    w_w48_160: W48_160 = W48_160,
    w_w48_161: W48_161 = W48_161,
    w_w48_162: W48_162 = W48_162,
    w_w48_163: W48_163 = W48_163,
    w_w48_164: W48_164 = W48_164,
    w_w48_165: W48_165 = W48_165,
    w_w48_166: W48_166 = W48_166,
    w_w48_167: W48_167 = W48_167,
    w_w48_168: W48_168 = W48_168,
    w_w48_169: W48_169 = W48_169,
    w_w48_170: W48_170 = W48_170,
    w_w48_171: W48_171 = W48_171,
    w_w48_172: W48_172 = W48_172,
    w_w48_173: W48_173 = W48_173,
    w_w48_174: W48_174 = W48_174,
    w_w48_175: W48_175 = W48_175,
    w_w48_176: W48_176 = W48_176,
    w_w48_177: W48_177 = W48_177,
    w_w48_178: W48_178 = W48_178,
    w_w48_179: W48_179 = W48_179,
    w_w48_180: W48_180 = W48_180,
    w_w48_181: W48_181 = W48_181,
    w_w48_182: W48_182 = W48_182,
    w_w48_183: W48_183 = W48_183,
    w_w48_184: W48_184 = W48_184,
    w_w48_185: W48_185 = W48_185,
    w_w48_186: W48_186 = W48_186,
    w_w48_187: W48_187 = W48_187,
    w_w48_188: W48_188 = W48_188,
    w_w48_189: W48_189 = W48_189,
    w_w48_190: W48_190 = W48_190,
    w_w48_191: W48_191 = W48_191,
    w_w48_192: W48_192 = W48_192,
    w_w48_193: W48_193 = W48_193,
    w_w48_194: W48_194 = W48_194,
    w_w48_195: W48_195 = W48_195,
    w_w48_196: W48_196 = W48_196,
    w_w48_197: W48_197 = W48_197,
    w_w48_198: W48_198 = W48_198,
    w_w48_199: W48_199 = W48_199,
    w_w48_200: W48_200 = W48_200,
    w_w48_201: W48_201 = W48_201,
    w_w48_202: W48_202 = W48_202,
    w_w48_203: W48_203 = W48_203,
    w_w48_204: W48_204 = W48_204,
    w_w48_205: W48_205 = W48_205,
    w_w48_206: W48_206 = W48_206,
    w_w48_207: W48_207 = W48_207,
    w_w48_208: W48_208 = W48_208,
    w_w48_209: W48_209 = W48_209,
    w_w48_210: W48_210 = W48_210,
    w_w48_211: W48_211 = W48_211,
    w_w48_212: W48_212 = W48_212,
    w_w48_213: W48_213 = W48_213,
    w_w48_214: W48_214 = W48_214,
    w_w48_215: W48_215 = W48_215,
    w_w48_216: W48_216 = W48_216,
    w_w48_217: W48_217 = W48_217,
    w_w48_218: W48_218 = W48_218,
    w_w48_219: W48_219 = W48_219,
    w_w48_220: W48_220 = W48_220,
    w_w48_221: W48_221 = W48_221,
    w_w48_222: W48_222 = W48_222,
    w_w48_223: W48_223 = W48_223,
    w_w48_224: W48_224 = W48_224,
    w_w48_225: W48_225 = W48_225,
    w_w48_226: W48_226 = W48_226,
    w_w48_227: W48_227 = W48_227,
    w_w48_228: W48_228 = W48_228,
    w_w48_229: W48_229 = W48_229,
    w_w48_230: W48_230 = W48_230,
    w_w48_231: W48_231 = W48_231,
    w_w48_232: W48_232 = W48_232,
    w_w48_233: W48_233 = W48_233,
    w_w48_234: W48_234 = W48_234,
    w_w48_235: W48_235 = W48_235,
    w_w48_236: W48_236 = W48_236,
    w_w48_237: W48_237 = W48_237,
    w_w48_238: W48_238 = W48_238,
    w_w48_239: W48_239 = W48_239,
    w_w48_240: W48_240 = W48_240,
    w_w48_241: W48_241 = W48_241,
    w_w48_242: W48_242 = W48_242,
    w_w48_243: W48_243 = W48_243,
    w_w48_244: W48_244 = W48_244,
    w_w48_245: W48_245 = W48_245,
    w_w48_246: W48_246 = W48_246,
    w_w48_247: W48_247 = W48_247,
    w_w48_248: W48_248 = W48_248,
    w_w48_249: W48_249 = W48_249,
    w_w48_250: W48_250 = W48_250,
    w_w48_251: W48_251 = W48_251,
    w_w48_252: W48_252 = W48_252,
    w_w48_253: W48_253 = W48_253,
    w_w48_254: W48_254 = W48_254,
    w_w48_255: W48_255 = W48_255,
    w_w48_256: W48_256 = W48_256,
    w_w48_257: W48_257 = W48_257,
    w_w48_258: W48_258 = W48_258,
    w_w48_259: W48_259 = W48_259,
    w_w48_260: W48_260 = W48_260,
    w_w48_261: W48_261 = W48_261,
    w_w48_262: W48_262 = W48_262,
    w_w48_263: W48_263 = W48_263,
    w_w48_264: W48_264 = W48_264,
    w_w48_265: W48_265 = W48_265,
    w_w48_266: W48_266 = W48_266,
    w_w48_267: W48_267 = W48_267,
    w_w48_268: W48_268 = W48_268,
    w_w48_269: W48_269 = W48_269,
    w_w48_270: W48_270 = W48_270,
    w_w48_271: W48_271 = W48_271,
    w_w48_272: W48_272 = W48_272,
    w_w48_273: W48_273 = W48_273,
    w_w48_274: W48_274 = W48_274,
    w_w48_275: W48_275 = W48_275,
    w_w48_276: W48_276 = W48_276,
    w_w48_277: W48_277 = W48_277,
    w_w48_278: W48_278 = W48_278,
    w_w48_279: W48_279 = W48_279,
    w_w48_280: W48_280 = W48_280,
    w_w48_281: W48_281 = W48_281,
    w_w48_282: W48_282 = W48_282,
    w_w48_283: W48_283 = W48_283,
    w_w48_284: W48_284 = W48_284,
    w_w48_285: W48_285 = W48_285,
    w_w48_286: W48_286 = W48_286,
    w_w48_287: W48_287 = W48_287,
    w_w48_288: W48_288 = W48_288,
    w_w48_289: W48_289 = W48_289,
    w_w48_290: W48_290 = W48_290,
    w_w48_291: W48_291 = W48_291,
    w_w48_292: W48_292 = W48_292,
    w_w48_293: W48_293 = W48_293,
    w_w48_294: W48_294 = W48_294,
    w_w48_295: W48_295 = W48_295,
    w_w48_296: W48_296 = W48_296,
    w_w48_297: W48_297 = W48_297,
    w_w48_298: W48_298 = W48_298,
    w_w48_299: W48_299 = W48_299,
    w_w48_300: W48_300 = W48_300,
    w_w48_301: W48_301 = W48_301,
    w_w48_302: W48_302 = W48_302,
    w_w48_303: W48_303 = W48_303,
    w_w48_304: W48_304 = W48_304,
    w_w48_305: W48_305 = W48_305,
    w_w48_306: W48_306 = W48_306,
    w_w31_1664: W31_1664 = W31_1664,
    w_w31_1665: W31_1665 = W31_1665,
    w_w32_450: W32_450 = W32_450,
    w_w32_451: W32_451 = W32_451,
    w_w31_1666: W31_1666 = W31_1666,
    w_w32_452: W32_452 = W32_452,
    w_w31_1667: W31_1667 = W31_1667,
    w_w31_1668: W31_1668 = W31_1668,
    w_w32_453: W32_453 = W32_453,
    w_w32_454: W32_454 = W32_454,
    w_w32_455: W32_455 = W32_455,
    w_w31_1669: W31_1669 = W31_1669,
    w_w32_456: W32_456 = W32_456,
    w_w32_457: W32_457 = W32_457,
    w_w31_1670: W31_1670 = W31_1670,
    w_w32_458: W32_458 = W32_458,
    w_w31_1671: W31_1671 = W31_1671,
    w_w31_1672: W31_1672 = W31_1672,
    w_w32_459: W32_459 = W32_459,
    w_w31_1673: W31_1673 = W31_1673,
    w_w31_1674: W31_1674 = W31_1674,
    w_w31_1675: W31_1675 = W31_1675,
    w_w32_460: W32_460 = W32_460,
    w_w32_461: W32_461 = W32_461,
    w_w32_462: W32_462 = W32_462,
    w_w32_463: W32_463 = W32_463,
    w_w32_464: W32_464 = W32_464,
    w_w32_465: W32_465 = W32_465,
    w_w32_466: W32_466 = W32_466,
    w_w31_1676: W31_1676 = W31_1676,
    w_w32_467: W32_467 = W32_467,
    w_w31_1677: W31_1677 = W31_1677,
    w_w32_468: W32_468 = W32_468,
    w_w32_469: W32_469 = W32_469,
    w_w31_1678: W31_1678 = W31_1678,
    w_w32_470: W32_470 = W32_470,
    w_w31_1679: W31_1679 = W31_1679,
    w_w31_1680: W31_1680 = W31_1680,
    w_w32_471: W32_471 = W32_471,
    w_w31_1681: W31_1681 = W31_1681,
    w_w32_472: W32_472 = W32_472,
    w_w32_473: W32_473 = W32_473,
    w_w32_474: W32_474 = W32_474,
    w_w32_475: W32_475 = W32_475,
    w_w32_476: W32_476 = W32_476,
    w_w32_477: W32_477 = W32_477,
    w_w31_1682: W31_1682 = W31_1682,
    w_w31_1683: W31_1683 = W31_1683,
    w_w31_1684: W31_1684 = W31_1684,
    w_w31_1685: W31_1685 = W31_1685,
    w_w32_478: W32_478 = W32_478,
    w_w31_1686: W31_1686 = W31_1686,
    w_w32_479: W32_479 = W32_479,
    w_w32_480: W32_480 = W32_480,
    w_w32_481: W32_481 = W32_481,
    w_w32_482: W32_482 = W32_482,
    w_w32_483: W32_483 = W32_483,
    w_w31_1687: W31_1687 = W31_1687,
    w_w31_1688: W31_1688 = W31_1688,
    w_w31_1689: W31_1689 = W31_1689,
    w_w31_1690: W31_1690 = W31_1690,
    w_w31_1691: W31_1691 = W31_1691,
    w_w31_1692: W31_1692 = W31_1692,
    w_w31_1693: W31_1693 = W31_1693,
    w_w31_1694: W31_1694 = W31_1694,
    w_w32_484: W32_484 = W32_484,
    w_w32_485: W32_485 = W32_485,
    w_w32_486: W32_486 = W32_486,
    w_w31_1695: W31_1695 = W31_1695,
    w_w31_1696: W31_1696 = W31_1696,
    w_w32_487: W32_487 = W32_487,
    w_w32_488: W32_488 = W32_488,
    w_w31_1697: W31_1697 = W31_1697,
    w_w32_489: W32_489 = W32_489,
    w_w31_1698: W31_1698 = W31_1698,
    w_w31_1699: W31_1699 = W31_1699,
    w_w32_490: W32_490 = W32_490,
    w_w32_491: W32_491 = W32_491,
    w_w32_492: W32_492 = W32_492,
    w_w32_493: W32_493 = W32_493,
    w_w32_494: W32_494 = W32_494,
    w_w32_495: W32_495 = W32_495,
    w_w31_1700: W31_1700 = W31_1700,
    w_w31_1701: W31_1701 = W31_1701,
    w_w32_496: W32_496 = W32_496,
    w_w31_1702: W31_1702 = W31_1702,
    w_w31_1703: W31_1703 = W31_1703,
    w_w32_497: W32_497 = W32_497,
    w_w32_498: W32_498 = W32_498,
    w_w31_1704: W31_1704 = W31_1704,
    w_w32_499: W32_499 = W32_499,
    w_w32_500: W32_500 = W32_500,
    w_w31_1705: W31_1705 = W31_1705,
    w_w32_501: W32_501 = W32_501,
    w_w32_502: W32_502 = W32_502,
    w_w31_1706: W31_1706 = W31_1706,
    w_w31_1707: W31_1707 = W31_1707,
    w_w32_503: W32_503 = W32_503,
    w_w32_504: W32_504 = W32_504,
    w_w32_505: W32_505 = W32_505,
    w_w31_1708: W31_1708 = W31_1708,
    w_w31_1709: W31_1709 = W31_1709,
    w_w32_506: W32_506 = W32_506,
    w_w31_1710: W31_1710 = W31_1710,
    w_w32_507: W32_507 = W32_507,
    w_w32_508: W32_508 = W32_508,
    w_w31_1711: W31_1711 = W31_1711,
    w_w31_1712: W31_1712 = W31_1712,
    w_w31_1713: W31_1713 = W31_1713,
    w_w32_509: W32_509 = W32_509,
    w_w31_1714: W31_1714 = W31_1714,
    w_w31_1715: W31_1715 = W31_1715,
    w_w32_510: W32_510 = W32_510,
    w_w32_511: W32_511 = W32_511,
    w_w32_512: W32_512 = W32_512,
    w_w32_513: W32_513 = W32_513,
    w_w31_1716: W31_1716 = W31_1716,
    w_w31_1717: W31_1717 = W31_1717,
    w_w31_1718: W31_1718 = W31_1718,
    w_w32_514: W32_514 = W32_514,
    w_w31_1719: W31_1719 = W31_1719,
    w_w32_515: W32_515 = W32_515,
    w_w31_1720: W31_1720 = W31_1720,
    w_w32_516: W32_516 = W32_516,
    w_w31_1721: W31_1721 = W31_1721,
    w_w32_517: W32_517 = W32_517,
    w_w31_1722: W31_1722 = W31_1722,
    w_w32_518: W32_518 = W32_518,
    w_w31_1723: W31_1723 = W31_1723,
    w_w31_1724: W31_1724 = W31_1724,
    w_w31_1725: W31_1725 = W31_1725,
    w_w32_519: W32_519 = W32_519,
    w_w32_520: W32_520 = W32_520,
    w_w32_521: W32_521 = W32_521,
    w_w31_1726: W31_1726 = W31_1726,
    w_w31_1727: W31_1727 = W31_1727,
    w_w31_1728: W31_1728 = W31_1728,
    w_w32_522: W32_522 = W32_522,
    w_w31_1729: W31_1729 = W31_1729,
    w_w32_523: W32_523 = W32_523,
    w_w31_1730: W31_1730 = W31_1730,
    w_w32_524: W32_524 = W32_524,
    w_w32_525: W32_525 = W32_525,
    w_w31_1731: W31_1731 = W31_1731,
    w_w31_1732: W31_1732 = W31_1732,
    w_w32_526: W32_526 = W32_526,
    w_w32_527: W32_527 = W32_527,
    w_w32_528: W32_528 = W32_528,
    w_w31_1733: W31_1733 = W31_1733,
    w_w31_1734: W31_1734 = W31_1734,
    w_w31_1735: W31_1735 = W31_1735,
    w_w31_1736: W31_1736 = W31_1736,
    w_w32_529: W32_529 = W32_529,
    w_w31_1737: W31_1737 = W31_1737,
    w_w31_1738: W31_1738 = W31_1738,
    w_w32_530: W32_530 = W32_530,
    w_w31_1739: W31_1739 = W31_1739,
    w_w31_1740: W31_1740 = W31_1740,
    w_w32_531: W32_531 = W32_531,
    w_w31_1741: W31_1741 = W31_1741,
    w_w32_532: W32_532 = W32_532,
    w_w32_533: W32_533 = W32_533,
    w_w32_534: W32_534 = W32_534,
    w_w31_1742: W31_1742 = W31_1742,
    w_w31_1743: W31_1743 = W31_1743,
    w_w31_1744: W31_1744 = W31_1744,
    w_w31_1745: W31_1745 = W31_1745,
    w_w31_1746: W31_1746 = W31_1746,
    w_w32_535: W32_535 = W32_535,
    w_w31_1747: W31_1747 = W31_1747,
    w_w31_1748: W31_1748 = W31_1748,
    w_w32_536: W32_536 = W32_536,
    w_w31_1749: W31_1749 = W31_1749,
    w_w32_537: W32_537 = W32_537,
    w_w31_1750: W31_1750 = W31_1750,
    w_w32_538: W32_538 = W32_538,
    w_w31_1751: W31_1751 = W31_1751,
    w_w31_1752: W31_1752 = W31_1752,
    w_w32_539: W32_539 = W32_539,
    w_w31_1753: W31_1753 = W31_1753,
    w_w32_540: W32_540 = W32_540,
    w_w32_541: W32_541 = W32_541,
    w_w31_1754: W31_1754 = W31_1754,
    w_w31_1755: W31_1755 = W31_1755,
    w_w31_1756: W31_1756 = W31_1756,
    w_w31_1757: W31_1757 = W31_1757,
    w_w31_1758: W31_1758 = W31_1758,
    w_w31_1759: W31_1759 = W31_1759,
    w_w32_542: W32_542 = W32_542,
    w_w32_543: W32_543 = W32_543,
    w_w32_544: W32_544 = W32_544,
    w_w32_545: W32_545 = W32_545,
    w_w32_546: W32_546 = W32_546,
    w_w31_1760: W31_1760 = W31_1760,
    w_w32_547: W32_547 = W32_547,
    w_w32_548: W32_548 = W32_548,
    w_w31_1761: W31_1761 = W31_1761,
    w_w32_549: W32_549 = W32_549,
    w_w31_1762: W31_1762 = W31_1762,
    w_w32_550: W32_550 = W32_550,
    w_w32_551: W32_551 = W32_551,
    w_w31_1763: W31_1763 = W31_1763,
    w_w32_552: W32_552 = W32_552,
    w_w31_1764: W31_1764 = W31_1764,
    w_w31_1765: W31_1765 = W31_1765,
    w_w32_553: W32_553 = W32_553,
    w_w32_554: W32_554 = W32_554,
    w_w32_555: W32_555 = W32_555,
    w_w32_556: W32_556 = W32_556,
    w_w31_1766: W31_1766 = W31_1766,
    w_w31_1767: W31_1767 = W31_1767,
    w_w31_1768: W31_1768 = W31_1768,
    w_w31_1769: W31_1769 = W31_1769,
    w_w31_1770: W31_1770 = W31_1770,
    w_w32_557: W32_557 = W32_557,
    w_w32_558: W32_558 = W32_558,
    w_w32_559: W32_559 = W32_559,
    w_w31_1771: W31_1771 = W31_1771,
    w_w32_560: W32_560 = W32_560,
    w_w31_1772: W31_1772 = W31_1772,
    w_w32_561: W32_561 = W32_561,
    w_w31_1773: W31_1773 = W31_1773,
    w_w31_1774: W31_1774 = W31_1774,
    w_w32_562: W32_562 = W32_562,
    w_w31_1775: W31_1775 = W31_1775,
    w_w31_1776: W31_1776 = W31_1776,
    w_w31_1777: W31_1777 = W31_1777,
    w_w31_1778: W31_1778 = W31_1778,
    w_w31_1779: W31_1779 = W31_1779,
    w_w32_563: W32_563 = W32_563,
    w_w31_1780: W31_1780 = W31_1780,
    w_w31_1781: W31_1781 = W31_1781,
    w_w31_1782: W31_1782 = W31_1782,
    w_w31_1783: W31_1783 = W31_1783,
    w_w32_564: W32_564 = W32_564,
    w_w31_1784: W31_1784 = W31_1784,
    w_w31_1785: W31_1785 = W31_1785,
    w_w31_1786: W31_1786 = W31_1786,
    w_w31_1787: W31_1787 = W31_1787,
    w_w31_1788: W31_1788 = W31_1788,
    w_w32_565: W32_565 = W32_565,
    w_w32_566: W32_566 = W32_566,
    w_w32_567: W32_567 = W32_567,
    w_w32_568: W32_568 = W32_568,
    w_w31_1789: W31_1789 = W31_1789,
    w_w32_569: W32_569 = W32_569,
    w_w32_570: W32_570 = W32_570,
    w_w32_571: W32_571 = W32_571,
    w_w32_572: W32_572 = W32_572,
    w_w32_573: W32_573 = W32_573,
    w_w31_1790: W31_1790 = W31_1790,
    w_w31_1791: W31_1791 = W31_1791,
    w_w31_1792: W31_1792 = W31_1792,
    w_w32_574: W32_574 = W32_574,
    w_w32_575: W32_575 = W32_575,
    w_w31_1793: W31_1793 = W31_1793,
    w_w32_576: W32_576 = W32_576,
    w_w32_577: W32_577 = W32_577,
    w_w32_578: W32_578 = W32_578,
    w_w31_1794: W31_1794 = W31_1794,
    w_w31_1795: W31_1795 = W31_1795,
    w_w31_1796: W31_1796 = W31_1796,
    w_w32_579: W32_579 = W32_579,
    w_w31_1797: W31_1797 = W31_1797,
    w_w31_1798: W31_1798 = W31_1798,
    w_w32_580: W32_580 = W32_580,
    w_w32_581: W32_581 = W32_581,
    w_w31_1799: W31_1799 = W31_1799,
    w_w32_582: W32_582 = W32_582,
    w_w32_583: W32_583 = W32_583,
    w_w32_584: W32_584 = W32_584,
    w_w31_1800: W31_1800 = W31_1800,
    w_w32_585: W32_585 = W32_585,
    w_w32_586: W32_586 = W32_586,
    w_w32_587: W32_587 = W32_587,
    w_w32_588: W32_588 = W32_588,
    w_w32_589: W32_589 = W32_589,
    w_w31_1801: W31_1801 = W31_1801,
    w_w32_590: W32_590 = W32_590,
    w_w31_1802: W31_1802 = W31_1802,
    w_w32_591: W32_591 = W32_591,
    w_w32_592: W32_592 = W32_592,
    w_w31_1803: W31_1803 = W31_1803,
    w_w31_1804: W31_1804 = W31_1804,
    w_w31_1805: W31_1805 = W31_1805,
    w_w31_1806: W31_1806 = W31_1806,
    w_w32_593: W32_593 = W32_593,
    w_w31_1807: W31_1807 = W31_1807,
    w_w32_594: W32_594 = W32_594,
    w_w31_1808: W31_1808 = W31_1808,
    w_w31_1809: W31_1809 = W31_1809,
    w_w32_595: W32_595 = W32_595,
    w_w32_596: W32_596 = W32_596,
    w_w31_1810: W31_1810 = W31_1810,
    w_w32_597: W32_597 = W32_597,
    w_w31_1811: W31_1811 = W31_1811,
    w_w32_598: W32_598 = W32_598,
    w_w31_1812: W31_1812 = W31_1812,
    w_w31_1813: W31_1813 = W31_1813,
    w_w31_1814: W31_1814 = W31_1814,
    w_w32_599: W32_599 = W32_599,
    w_w31_1815: W31_1815 = W31_1815,
    w_w32_600: W32_600 = W32_600,
    w_w31_1816: W31_1816 = W31_1816,
    w_w31_1817: W31_1817 = W31_1817,
    w_w31_1818: W31_1818 = W31_1818,
    w_w32_601: W32_601 = W32_601,
    w_w31_1819: W31_1819 = W31_1819,
    w_w32_602: W32_602 = W32_602,
    w_w31_1820: W31_1820 = W31_1820,
    w_w32_603: W32_603 = W32_603,
    w_w31_1821: W31_1821 = W31_1821,
    w_w31_1822: W31_1822 = W31_1822,
    w_w32_604: W32_604 = W32_604,
    w_w31_1823: W31_1823 = W31_1823,
    w_w32_605: W32_605 = W32_605,
    w_w31_1824: W31_1824 = W31_1824,
    w_w32_606: W32_606 = W32_606,
    w_w32_607: W32_607 = W32_607,
    w_w32_608: W32_608 = W32_608,
    w_w32_609: W32_609 = W32_609,
    w_w31_1825: W31_1825 = W31_1825,
    w_w31_1826: W31_1826 = W31_1826,
    w_w31_1827: W31_1827 = W31_1827,
    w_w31_1828: W31_1828 = W31_1828,
    w_w32_610: W32_610 = W32_610,
    w_w32_611: W32_611 = W32_611,
    w_w31_1829: W31_1829 = W31_1829,
    w_w31_1830: W31_1830 = W31_1830,
    w_w31_1831: W31_1831 = W31_1831,
    w_w32_612: W32_612 = W32_612,
    w_w32_613: W32_613 = W32_613,
    w_w32_614: W32_614 = W32_614,
    w_w31_1832: W31_1832 = W31_1832,
    w_w31_1833: W31_1833 = W31_1833,
    w_w32_615: W32_615 = W32_615,
    w_w31_1834: W31_1834 = W31_1834,
    w_w32_616: W32_616 = W32_616,
    w_w32_617: W32_617 = W32_617,
    w_w31_1835: W31_1835 = W31_1835,
    w_w31_1836: W31_1836 = W31_1836,
    w_w32_618: W32_618 = W32_618,
    w_w31_1837: W31_1837 = W31_1837,
    w_w31_1838: W31_1838 = W31_1838,
    w_w31_1839: W31_1839 = W31_1839,
    w_w32_619: W32_619 = W32_619,
    w_w32_620: W32_620 = W32_620,
    w_w32_621: W32_621 = W32_621,
    w_w31_1840: W31_1840 = W31_1840,
    w_w31_1841: W31_1841 = W31_1841,
    w_w32_622: W32_622 = W32_622,
    w_w32_623: W32_623 = W32_623,
    w_w32_624: W32_624 = W32_624,
    w_w31_1842: W31_1842 = W31_1842,
    w_w31_1843: W31_1843 = W31_1843,
    w_w31_1844: W31_1844 = W31_1844,
    w_w31_1845: W31_1845 = W31_1845,
    w_w32_625: W32_625 = W32_625,
    w_w31_1846: W31_1846 = W31_1846,
    w_w32_626: W32_626 = W32_626,
    w_w31_1847: W31_1847 = W31_1847,
    w_w31_1848: W31_1848 = W31_1848,
    w_w31_1849: W31_1849 = W31_1849,
    w_w31_1850: W31_1850 = W31_1850,
    w_w31_1851: W31_1851 = W31_1851,
    w_w31_1852: W31_1852 = W31_1852,
    w_w32_627: W32_627 = W32_627,
    w_w31_1853: W31_1853 = W31_1853,
    w_w32_628: W32_628 = W32_628,
    w_w31_1854: W31_1854 = W31_1854,
    w_w31_1855: W31_1855 = W31_1855,
    w_w31_1856: W31_1856 = W31_1856,
    w_w32_629: W32_629 = W32_629,
    w_w32_630: W32_630 = W32_630,
    w_w32_631: W32_631 = W32_631,
    w_w31_1857: W31_1857 = W31_1857,
    w_w32_632: W32_632 = W32_632,
    w_w31_1858: W31_1858 = W31_1858,
    w_w32_633: W32_633 = W32_633,
    w_w32_634: W32_634 = W32_634,
    w_w31_1859: W31_1859 = W31_1859,
    w_w31_1860: W31_1860 = W31_1860,
    w_w32_635: W32_635 = W32_635,
    w_w31_1861: W31_1861 = W31_1861,
    w_w31_1862: W31_1862 = W31_1862,
    w_w31_1863: W31_1863 = W31_1863,
    w_w32_636: W32_636 = W32_636,
    w_w32_637: W32_637 = W32_637,
    w_w32_638: W32_638 = W32_638,
    w_w32_639: W32_639 = W32_639,
    w_w31_1864: W31_1864 = W31_1864,
    w_w31_1865: W31_1865 = W31_1865,
    w_w31_1866: W31_1866 = W31_1866,
    w_w32_640: W32_640 = W32_640,
    w_w31_1867: W31_1867 = W31_1867,
    w_w32_641: W32_641 = W32_641,
    w_w31_1868: W31_1868 = W31_1868,
    w_w31_1869: W31_1869 = W31_1869,
    w_w31_1870: W31_1870 = W31_1870,
    w_w31_1871: W31_1871 = W31_1871,
    w_w31_1872: W31_1872 = W31_1872,
    w_w31_1873: W31_1873 = W31_1873,
    w_w32_642: W32_642 = W32_642,
    w_w31_1874: W31_1874 = W31_1874,
    w_w31_1875: W31_1875 = W31_1875,
    w_w32_643: W32_643 = W32_643,
    w_w32_644: W32_644 = W32_644,
    w_w31_1876: W31_1876 = W31_1876,
    w_w31_1877: W31_1877 = W31_1877,
    w_w31_1878: W31_1878 = W31_1878,
    w_w31_1879: W31_1879 = W31_1879,
    w_w32_645: W32_645 = W32_645,
    w_w32_646: W32_646 = W32_646,
    w_w31_1880: W31_1880 = W31_1880,
    w_w31_1881: W31_1881 = W31_1881,
    w_w31_1882: W31_1882 = W31_1882,
    w_w32_647: W32_647 = W32_647,
    w_w32_648: W32_648 = W32_648,
    w_w32_649: W32_649 = W32_649,
    w_w32_650: W32_650 = W32_650,
    w_w31_1883: W31_1883 = W31_1883,
    w_w31_1884: W31_1884 = W31_1884,
    w_w31_1885: W31_1885 = W31_1885,
    w_w31_1886: W31_1886 = W31_1886,
    w_w31_1887: W31_1887 = W31_1887,
    w_w31_1888: W31_1888 = W31_1888,
    w_w32_651: W32_651 = W32_651,
    w_w32_652: W32_652 = W32_652,
    w_w31_1889: W31_1889 = W31_1889,
    w_w32_653: W32_653 = W32_653,
    w_w31_1890: W31_1890 = W31_1890,
    w_w31_1891: W31_1891 = W31_1891,
    w_w32_654: W32_654 = W32_654,
    w_w32_655: W32_655 = W32_655,
    w_w32_656: W32_656 = W32_656,
    w_w31_1892: W31_1892 = W31_1892,
    w_w31_1893: W31_1893 = W31_1893,
    w_w31_1894: W31_1894 = W31_1894,
    w_w31_1895: W31_1895 = W31_1895,
    w_w32_657: W32_657 = W32_657,
    w_w32_658: W32_658 = W32_658,
    w_w32_659: W32_659 = W32_659,
    w_w32_660: W32_660 = W32_660,
    w_w31_1896: W31_1896 = W31_1896,
    w_w31_1897: W31_1897 = W31_1897,
    w_w32_661: W32_661 = W32_661,
    w_w31_1898: W31_1898 = W31_1898,
    w_w32_662: W32_662 = W32_662,
    w_w32_663: W32_663 = W32_663,
    w_w31_1899: W31_1899 = W31_1899,
    w_w31_1900: W31_1900 = W31_1900,
    w_w31_1901: W31_1901 = W31_1901,
    w_w31_1902: W31_1902 = W31_1902,
    w_w32_664: W32_664 = W32_664,
    w_w31_1903: W31_1903 = W31_1903,
    w_w32_665: W32_665 = W32_665,
    w_w32_666: W32_666 = W32_666,
    w_w32_667: W32_667 = W32_667,
    w_w31_1904: W31_1904 = W31_1904,
    w_w31_1905: W31_1905 = W31_1905,
    w_w31_1906: W31_1906 = W31_1906,
    w_w32_668: W32_668 = W32_668,
    w_w32_669: W32_669 = W32_669,
    w_w31_1907: W31_1907 = W31_1907,
    w_w31_1908: W31_1908 = W31_1908,
    w_w32_670: W32_670 = W32_670,
    w_w32_671: W32_671 = W32_671,
    w_w31_1909: W31_1909 = W31_1909,
    w_w31_1910: W31_1910 = W31_1910,
    w_w32_672: W32_672 = W32_672,
    w_w32_673: W32_673 = W32_673,
    w_w32_674: W32_674 = W32_674,
    w_w31_1911: W31_1911 = W31_1911,
    w_w32_675: W32_675 = W32_675,
    w_w32_676: W32_676 = W32_676,
    w_w32_677: W32_677 = W32_677,
    w_w32_678: W32_678 = W32_678,
    w_w31_1912: W31_1912 = W31_1912,
    w_w31_1913: W31_1913 = W31_1913,
    w_w32_679: W32_679 = W32_679,
    w_w32_680: W32_680 = W32_680,
    w_w31_1914: W31_1914 = W31_1914,
    w_w31_1915: W31_1915 = W31_1915,
    w_w32_681: W32_681 = W32_681,
    w_w32_682: W32_682 = W32_682,
    w_w31_1916: W31_1916 = W31_1916,
    w_w32_683: W32_683 = W32_683,
    w_w31_1917: W31_1917 = W31_1917,
    w_w31_1918: W31_1918 = W31_1918,
    w_w32_684: W32_684 = W32_684,
    w_w31_1919: W31_1919 = W31_1919,
    w_w32_685: W32_685 = W32_685,
    w_w32_686: W32_686 = W32_686,
    w_w32_687: W32_687 = W32_687,
    w_w31_1920: W31_1920 = W31_1920,
    w_w31_1921: W31_1921 = W31_1921,
    w_w32_688: W32_688 = W32_688,
    w_w32_689: W32_689 = W32_689,
    w_w32_690: W32_690 = W32_690,
    w_w31_1922: W31_1922 = W31_1922,
    w_w32_691: W32_691 = W32_691,
    w_w32_692: W32_692 = W32_692,
    w_w32_693: W32_693 = W32_693,
    w_w31_1923: W31_1923 = W31_1923,
    w_w31_1924: W31_1924 = W31_1924,
    w_w31_1925: W31_1925 = W31_1925,
    w_w32_694: W32_694 = W32_694,
    w_w31_1926: W31_1926 = W31_1926,
    w_w32_695: W32_695 = W32_695,
    w_w31_1927: W31_1927 = W31_1927,
    w_w32_696: W32_696 = W32_696,
    w_w31_1928: W31_1928 = W31_1928,
    w_w31_1929: W31_1929 = W31_1929,
    w_w31_1930: W31_1930 = W31_1930,
    w_w32_697: W32_697 = W32_697,
    w_w32_698: W32_698 = W32_698,
    w_w32_699: W32_699 = W32_699,
    w_w32_700: W32_700 = W32_700,
    w_w31_1931: W31_1931 = W31_1931,
    w_w32_701: W32_701 = W32_701,
    w_w32_702: W32_702 = W32_702,
    w_w32_703: W32_703 = W32_703,
    w_w31_1932: W31_1932 = W31_1932,
    w_w31_1933: W31_1933 = W31_1933,
    w_w32_704: W32_704 = W32_704,
    w_w31_1934: W31_1934 = W31_1934,
    w_w32_705: W32_705 = W32_705,
    w_w31_1935: W31_1935 = W31_1935,
    w_w31_1936: W31_1936 = W31_1936,
    w_w32_706: W32_706 = W32_706,
    w_w32_707: W32_707 = W32_707,
    w_w31_1937: W31_1937 = W31_1937,
    w_w31_1938: W31_1938 = W31_1938,
    w_w31_1939: W31_1939 = W31_1939,
    w_w32_708: W32_708 = W32_708,
    w_w32_709: W32_709 = W32_709,
    w_w31_1940: W31_1940 = W31_1940,
    w_w32_710: W32_710 = W32_710,
    w_w31_1941: W31_1941 = W31_1941,
    w_w31_1942: W31_1942 = W31_1942,
    w_w31_1943: W31_1943 = W31_1943,
    w_w31_1944: W31_1944 = W31_1944,
    w_w31_1945: W31_1945 = W31_1945,
    w_w32_711: W32_711 = W32_711,
    w_w31_1946: W31_1946 = W31_1946,
    w_w32_712: W32_712 = W32_712,
    w_w31_1947: W31_1947 = W31_1947,
    w_w32_713: W32_713 = W32_713,
    w_w31_1948: W31_1948 = W31_1948,
    w_w31_1949: W31_1949 = W31_1949,
    w_w31_1950: W31_1950 = W31_1950,
    w_w32_714: W32_714 = W32_714,
    w_w31_1951: W31_1951 = W31_1951,
    w_w31_1952: W31_1952 = W31_1952,
    w_w31_1953: W31_1953 = W31_1953,
    w_w32_715: W32_715 = W32_715,
    w_w31_1954: W31_1954 = W31_1954,
    w_w32_716: W32_716 = W32_716,
    w_w31_1955: W31_1955 = W31_1955,
    w_w32_717: W32_717 = W32_717,
    w_w32_718: W32_718 = W32_718,
    w_w32_719: W32_719 = W32_719,
    w_w32_720: W32_720 = W32_720,
    w_w31_1956: W31_1956 = W31_1956,
    w_w32_721: W32_721 = W32_721,
    w_w31_1957: W31_1957 = W31_1957,
    w_w31_1958: W31_1958 = W31_1958,
    w_w31_1959: W31_1959 = W31_1959,
    w_w31_1960: W31_1960 = W31_1960,
    w_w32_722: W32_722 = W32_722,
    w_w32_723: W32_723 = W32_723,
    w_w32_724: W32_724 = W32_724,
    w_w31_1961: W31_1961 = W31_1961,
    w_w32_725: W32_725 = W32_725,
    w_w31_1962: W31_1962 = W31_1962,
    w_w32_726: W32_726 = W32_726,
    w_w31_1963: W31_1963 = W31_1963,
    w_w31_1964: W31_1964 = W31_1964,
    w_w32_727: W32_727 = W32_727,
    w_w32_728: W32_728 = W32_728,
    w_w32_729: W32_729 = W32_729,
    w_w32_730: W32_730 = W32_730,
    w_w31_1965: W31_1965 = W31_1965,
    w_w32_731: W32_731 = W32_731,
    w_w31_1966: W31_1966 = W31_1966,
    w_w31_1967: W31_1967 = W31_1967,
    w_w32_732: W32_732 = W32_732,
    w_w32_733: W32_733 = W32_733,
    w_w31_1968: W31_1968 = W31_1968,
    w_w32_734: W32_734 = W32_734,
    w_w32_735: W32_735 = W32_735,
    w_w31_1969: W31_1969 = W31_1969,
    w_w32_736: W32_736 = W32_736,
    w_w32_737: W32_737 = W32_737,
    w_w32_738: W32_738 = W32_738,
    w_w31_1970: W31_1970 = W31_1970,
    w_w31_1971: W31_1971 = W31_1971,
    w_w32_739: W32_739 = W32_739,
    w_w31_1972: W31_1972 = W31_1972,
    w_w32_740: W32_740 = W32_740,
    w_w31_1973: W31_1973 = W31_1973,
    w_w32_741: W32_741 = W32_741,
    w_w31_1974: W31_1974 = W31_1974,
    w_w32_742: W32_742 = W32_742,
    w_w32_743: W32_743 = W32_743,
    w_w31_1975: W31_1975 = W31_1975,
    w_w31_1976: W31_1976 = W31_1976,
    w_w31_1977: W31_1977 = W31_1977,
    w_w32_744: W32_744 = W32_744,
    w_w31_1978: W31_1978 = W31_1978,
    w_w32_745: W32_745 = W32_745,
    w_w32_746: W32_746 = W32_746,
    w_w32_747: W32_747 = W32_747,
    w_w31_1979: W31_1979 = W31_1979,
    w_w31_1980: W31_1980 = W31_1980,
    w_w32_748: W32_748 = W32_748,
    w_w32_749: W32_749 = W32_749,
    w_w31_1981: W31_1981 = W31_1981,
    w_w31_1982: W31_1982 = W31_1982,
    w_w31_1983: W31_1983 = W31_1983,
    w_w32_750: W32_750 = W32_750,
    w_w32_751: W32_751 = W32_751,
    w_w31_1984: W31_1984 = W31_1984,
    w_w32_752: W32_752 = W32_752,
    w_w32_753: W32_753 = W32_753,
    w_w32_754: W32_754 = W32_754,
    w_w31_1985: W31_1985 = W31_1985,
    w_w31_1986: W31_1986 = W31_1986,
    w_w32_755: W32_755 = W32_755,
    w_w32_756: W32_756 = W32_756,
    w_w31_1987: W31_1987 = W31_1987,
    w_w31_1988: W31_1988 = W31_1988,
    w_w32_757: W32_757 = W32_757,
    w_w31_1989: W31_1989 = W31_1989,
    w_w32_758: W32_758 = W32_758,
    w_w32_759: W32_759 = W32_759,
    w_w31_1990: W31_1990 = W31_1990,
    w_w31_1991: W31_1991 = W31_1991,
    w_w32_760: W32_760 = W32_760,
    w_w31_1992: W31_1992 = W31_1992,
    w_w31_1993: W31_1993 = W31_1993,
    w_w31_1994: W31_1994 = W31_1994,
    w_w31_1995: W31_1995 = W31_1995,
    w_w31_1996: W31_1996 = W31_1996,
    w_w31_1997: W31_1997 = W31_1997,
    w_w32_761: W32_761 = W32_761,
    w_w31_1998: W31_1998 = W31_1998,
    w_w31_1999: W31_1999 = W31_1999,
    w_w31_2000: W31_2000 = W31_2000,
    w_w32_762: W32_762 = W32_762,
    w_w31_2001: W31_2001 = W31_2001,
    w_w32_763: W32_763 = W32_763,
    w_w32_764: W32_764 = W32_764,
    w_w32_765: W32_765 = W32_765,
    w_w32_766: W32_766 = W32_766,
    w_w32_767: W32_767 = W32_767,
    w_w32_768: W32_768 = W32_768,
    w_w32_769: W32_769 = W32_769,
    w_w32_770: W32_770 = W32_770,
    w_w31_2002: W31_2002 = W31_2002,
    w_w31_2003: W31_2003 = W31_2003,
    w_w32_771: W32_771 = W32_771,
    w_w31_2004: W31_2004 = W31_2004,
    w_w32_772: W32_772 = W32_772,
    w_w31_2005: W31_2005 = W31_2005,
    w_w31_2006: W31_2006 = W31_2006,
    w_w32_773: W32_773 = W32_773,
    w_w31_2007: W31_2007 = W31_2007,
    w_w32_774: W32_774 = W32_774,
    w_w31_2008: W31_2008 = W31_2008,
    w_w32_775: W32_775 = W32_775,
    w_w32_776: W32_776 = W32_776,
    w_w32_777: W32_777 = W32_777,
    w_w31_2009: W31_2009 = W31_2009,
    w_w32_778: W32_778 = W32_778,
    w_w31_2010: W31_2010 = W31_2010,
    w_w31_2011: W31_2011 = W31_2011,
    w_w32_779: W32_779 = W32_779,
    w_w31_2012: W31_2012 = W31_2012,
    w_w31_2013: W31_2013 = W31_2013,
    w_w31_2014: W31_2014 = W31_2014,
    w_w31_2015: W31_2015 = W31_2015,
    w_w32_780: W32_780 = W32_780,
    w_w32_781: W32_781 = W32_781,
    w_w32_782: W32_782 = W32_782,
    w_w31_2016: W31_2016 = W31_2016,
    w_w31_2017: W31_2017 = W31_2017,
    w_w31_2018: W31_2018 = W31_2018,
    w_w32_783: W32_783 = W32_783,
    w_w31_2019: W31_2019 = W31_2019,
    w_w32_784: W32_784 = W32_784,
    w_w32_785: W32_785 = W32_785,
    w_w31_2020: W31_2020 = W31_2020,
    w_w31_2021: W31_2021 = W31_2021,
    w_w31_2022: W31_2022 = W31_2022,
    w_w31_2023: W31_2023 = W31_2023,
    w_w31_2024: W31_2024 = W31_2024,
    w_w32_786: W32_786 = W32_786,
    w_w32_787: W32_787 = W32_787,
    w_w32_788: W32_788 = W32_788,
    w_w30_1: W30_1 = W30_1,
    w_w30_2: W30_2 = W30_2,
    w_w30_3: W30_3 = W30_3,
    w_w30_4: W30_4 = W30_4,
    w_w30_5: W30_5 = W30_5,
    w_w30_6: W30_6 = W30_6,
    w_w30_7: W30_7 = W30_7,
    w_w30_8: W30_8 = W30_8,
    w_w30_9: W30_9 = W30_9,
    w_w30_10: W30_10 = W30_10,
    w_w30_11: W30_11 = W30_11,
    w_w30_12: W30_12 = W30_12,
    w_w30_13: W30_13 = W30_13,
    w_w30_14: W30_14 = W30_14,
    w_w30_15: W30_15 = W30_15,
    w_w30_16: W30_16 = W30_16,
    w_w30_17: W30_17 = W30_17,
    w_w30_18: W30_18 = W30_18,
    w_w30_19: W30_19 = W30_19,
    w_w30_20: W30_20 = W30_20,
    w_w30_21: W30_21 = W30_21,
    w_w30_22: W30_22 = W30_22,
    w_w30_23: W30_23 = W30_23,
    w_w30_24: W30_24 = W30_24,
    w_w30_25: W30_25 = W30_25,
    w_w30_26: W30_26 = W30_26,
    w_w30_27: W30_27 = W30_27,
    w_w30_28: W30_28 = W30_28,
    w_w30_29: W30_29 = W30_29,
    w_w30_30: W30_30 = W30_30,
    w_w30_31: W30_31 = W30_31,
    w_w30_32: W30_32 = W30_32,
    w_w30_33: W30_33 = W30_33,
    w_w30_34: W30_34 = W30_34,
    w_w30_35: W30_35 = W30_35,
    w_w30_36: W30_36 = W30_36,
    w_w30_37: W30_37 = W30_37,
    w_w30_38: W30_38 = W30_38,
    w_w30_39: W30_39 = W30_39,
    w_w30_40: W30_40 = W30_40,
    w_w30_41: W30_41 = W30_41,
    w_w30_42: W30_42 = W30_42,
    w_w30_43: W30_43 = W30_43,
    w_w30_44: W30_44 = W30_44,
    w_w30_45: W30_45 = W30_45,
    w_w30_46: W30_46 = W30_46,
    w_w30_47: W30_47 = W30_47,
    w_w30_48: W30_48 = W30_48,
    w_w30_49: W30_49 = W30_49,
    w_w30_50: W30_50 = W30_50,
    w_w30_51: W30_51 = W30_51,
    w_w30_52: W30_52 = W30_52,
    w_w30_53: W30_53 = W30_53,
    w_w30_54: W30_54 = W30_54,
    w_w30_55: W30_55 = W30_55,
    w_w30_56: W30_56 = W30_56,
}
types! {
    w_w37_own: W37_own = W37_own,
    w_w48_98: W48_98 = W48_98,
    w_w48_99: W48_99 = W48_99,
    w_w48_100: W48_100 = W48_100,
    w_w48_101: W48_101 = W48_101,
    w_w48_102: W48_102 = W48_102,
    w_w48_103: W48_103 = W48_103,
    w_w48_104: W48_104 = W48_104,
    w_w48_105: W48_105 = W48_105,
    w_w48_106: W48_106 = W48_106,
    w_w48_107: W48_107 = W48_107,
    w_w48_108: W48_108 = W48_108,
    w_w48_109: W48_109 = W48_109,
    w_w48_110: W48_110 = W48_110,
    w_w48_111: W48_111 = W48_111,
    w_w48_112: W48_112 = W48_112,
    w_w48_113: W48_113 = W48_113,
    w_w48_114: W48_114 = W48_114,
    w_w48_115: W48_115 = W48_115,
    w_w48_116: W48_116 = W48_116,
    w_w48_117: W48_117 = W48_117,
    w_w48_118: W48_118 = W48_118,
    w_w48_119: W48_119 = W48_119,
    w_w48_120: W48_120 = W48_120,
    w_w48_121: W48_121 = W48_121,
    w_w48_122: W48_122 = W48_122,
    w_w48_123: W48_123 = W48_123,
    w_w48_124: W48_124 = W48_124,
    w_w48_125: W48_125 = W48_125,
    w_w48_126: W48_126 = W48_126,
}
