// generated by tools/mkrsa.py
use crate::rsakeys::K;
pub static KEYS: &[K] = &[
    K { bits: 512, n: "e956b6827c142bfc7a2cf3cb4a8671c26c341d205792047e7318ac88c3fcd11a0a7d6e9751b8d310fba568342a3e89cef4434daf3b9305daee3b96ff9cf7347b", e: "010001", d: "174225f20eb522074a1455feb30080b15d00bad080fa1489982662f844f4dbd0b875a3833aaeaf5ede1cee667c8606cde0be9357744703bbdadcf44a4d711a99", p: "f77c36c09c37d74bc51149d0b6ea8a5c84383462b4840cc47b21ef2ecb49a333", q: "f15de681febb323890d181da410264e9054b9495d84c3e79f2234534f9e8a999", dp: "23f80ca91fcb49e23c490ff662af61dea264dcd03fb63578d5009097b77a035b", dq: "8b4e57d9156d7389e443973fa19fc120209743b5cc760ce51314ba3fde312399", qi: "7f4a281719581e565df1db938abfe254d4b5a62ce71d1c100076f0f536317479" },
    K { bits: 768, n: "97906512fd833a1f31a3a119c184a16725039d317f2caa1e05ddab5b9aa64f4f996468a40d3c014ca3c2fee31567643ad8b9d9144c45b2d0a7332038f13d7b217c905767aa8f4e9034ccd8361af235e4a5ad1faa5489a49edf558058f0e40c93", e: "010001", d: "40a163e079b77c50f1ff7742bee95a545c0dd2f9d8e3c8753e061d3cd651260fe8f6cec26a1c54e7840bb25a4e75c4e0c5262509f7cf36698225be24d1cfe812e187d42a34acad8ab36385fb45a9a735af8ff89609740ceefabc3089c7a1bea1", p: "c8728096b977a6852ea92abdaa7c98aaad93ba820ce0a7e09bb5cb1c465a4f530e1eb892dca2659d5caa663b7191ab33", q: "c191af520efd7f2537761e968d3fe0308fb5ac5acf7bcccb4cb0ca6a5492ccac81da9b3b7c8e53d99b39ca5a07071921", dp: "3cbe162196ca9f77b49027179ad66f1d29c49ebc5252b20ceaa2c88e24f3b11e26254121a022c6504d8885ba75cc02e9", dq: "55b68907b113972587b58a3de8360cb3f42ee22f240911da440f54d258b8d860daef4e25bd35d8f356c4f45181232781", qi: "42333ab226b92823a18f83d8edd7bc1f333eb00b290c51839998e40a5f7480944cc240e449fa650193a8713b5dac6cb1" },
    K { bits: 1016, n: "c08b932aee32cd3339a4b47ffe762ed81bb41ce792d04333a641551ca603236f739abd3f611b8d640f16764fad0a7d4dacb3e51a9cf9dbc7a4a9f182ce0d51a7b03bafca4b514f30d962620006daced1ab330577584f6f79e780afcc9d807dffdc2782c78e55319aeb3af9376b845732351562810ac761aa79abf8030af8ff", e: "010001", d: "296fe04424ef19ea2445a5f2c5b8796c58c9f24e83f1fe04678b37ddea7c526bf1dd234d3880cd74f32a4a5beb498e9de0c4f6513be729bd555a9d7721110cb39f03c8690c1e259e44beb7decfde94ca60d5185373befbdaa0567920eb8487e21b4624c49f9a07567958e8be30e100b5df5ecc6cefa2997e09c10cd4cc6341", p: "0f8c1ebe23b6438b0e5f6db1cd783274fb49fd5eb1ec171400cb989363332d0750eaf92a2abf4715f69c1b26edf6ca650fb1a0a57a68207439cc8fcf3b50ecad", q: "0c626aee3928be739c1df301d94278a370a1fb41d7a518daca594f2e6dafed2d169008724392873ada2b1fc8930be6c934f40d483630871b50619e6f88f9a5db", dp: "0b202837c4727f6f18ffed0d998d73fe067cf2153b99490285772c5dfc54f8da0d6bb8961634fef7969c2b49f66bee75d77f330877c9dfbf8c44f87c41642d99", dq: "0ab473abb19ac76d55500a02da127c0702cff1488ba778e17e314ea15a4ccc9dc1b804a50845bb40a2decddd6945cb5ab6bc12530e0c4a6cd0c160db16327d2b", qi: "03b7c825a499fcc11c9650f5571656ae026d9ecdce86b1b79bd582bdaf3579f976647ec0d3ef5212690315e48ed33e202798489873c175a488250ad153c7164b" },
    K { bits: 1020, n: "0ebe4d548f4c36a52585cf5775254b38718e5ee942a4cc113d323cbe3a3a5dad40f1f6a2d23e1d58e6121eeee3bad6aea8965440024f253d89b2405c23feb59dcc7ebd986d890612582797102f6685f851f86ea81d0997b9c7d750e640f6d4fa033192b5d7d6b989058a6a43a5ab5215de07195886e4aff1b29351251f8ca5dd", e: "11", d: "014d06d2c1598c59dda9eca5d5a16884faf5f950d12ca8981bfce73df61435712b60a4d2219c11a5f62ec67e7d816d4ba576ad14b4e8dda38c2650f9123c1f156913eb9b4c2b047f56bde9b33c45a9e07671adc3085a5ec9b34ceb335a41529dd304320208bebf26be6df1aeee520c79b82c8fe02e99c819625ce1ba6391b3a1", p: "3fa1c659964f687612d858eb45921c42a853582eb8558921dd478bf0929cd181c826a938ed8c4860d583408f7c6acd0e0d599f98671d5d8da211ebfc69b34715", q: "3b50890977fcbff918e6e58ae9698f1b15f20fd7060931a9fa7d5b5a5a205b2638db5d65dc83501bc1d3cbf59c494cf9a95f1b28ba4dcbef0b0f66e84d6615a9", dp: "256e3870ef0188bdecf7bbd5b074109fae4f24d0303250aa822a16150af2d597a2e990b8134375de9bb69e72856c00266234b83b87f327f8f5ec6cb298879339", dq: "37d353ccad2a1e179ef76ea0dbaea4ce32c5b48e23cc6afa552ab0550987dd5126741bab29e5001a1fd6659bde631b45541d46bceb9483b3ce2c9d16df6f2371", qi: "187313522a06942867bd2187c885a983b2d2ff809b333381c8a26dc36b7ee9134b638916e58a927ea0e31627b42a44b71862ea760bdedcaad3e44367f17c5528" },
];
